//! C10 slice and text streams hand out their elements exactly once, in order, in the pieces asked
//! for, and never split a character.
use crate::c09::{text, Text, B, S};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::stream::*;
use combine::*;

/// The contents of a stream, and how its tokens and ranges show them.
pub trait Model {
    type T;
    type R;
    /// Number of tokens.
    fn n(&self) -> usize;
    fn is(&self, i: usize, t: &Self::T) -> bool;
    /// Where token `i` starts, in units of range lengths.
    fn at(&self, i: usize) -> usize;
    fn boundary(&self, u: usize) -> bool;
    /// The part of the contents that a range is, by address: start and length in units.
    fn part(&self, r: &Self::R) -> (usize, usize);
}

const N: usize = 4;
static mut BYTES: [u8; 20] = [0; 20];
static mut WORDS: [u16; N] = [0; N];

#[derive(Clone, Copy)]
pub struct Bytes(pub B);
#[derive(Clone, Copy)]
pub struct Refs(pub B);
#[derive(Clone, Copy)]
pub struct Words(pub &'static [u16]);

pub fn bytes() -> Bytes {
    unsafe {
        let d = &mut *std::ptr::addr_of_mut!(BYTES);
        d[0] = nd::u8();
        d[1] = nd::u8();
        d[2] = nd::u8();
        d[3] = nd::u8();
        Bytes(&(&*std::ptr::addr_of!(BYTES))[..nd::below(N as u8 + 1) as usize])
    }
}
/// Up to twenty bytes, to reach every loop of the scanning functions.
fn long() -> B {
    unsafe {
        let d = &mut *std::ptr::addr_of_mut!(BYTES);
        *d = [7, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
        &(&*std::ptr::addr_of!(BYTES))[..nd::below(21) as usize]
    }
}
pub fn words() -> Words {
    unsafe {
        let d = &mut *std::ptr::addr_of_mut!(WORDS);
        d[0] = nd::u32() as u16;
        d[1] = nd::u32() as u16;
        d[2] = nd::u32() as u16;
        d[3] = nd::u32() as u16;
        Words(&(&*std::ptr::addr_of!(WORDS))[..nd::below(N as u8 + 1) as usize])
    }
}
fn place(base: *const u8, p: *const u8, size: usize) -> usize {
    (p as usize).wrapping_sub(base as usize) / size
}
impl Model for Bytes {
    type T = u8;
    type R = B;
    fn n(&self) -> usize {
        self.0.len()
    }
    fn is(&self, i: usize, t: &u8) -> bool {
        *t == self.0[i]
    }
    fn at(&self, i: usize) -> usize {
        i
    }
    fn boundary(&self, u: usize) -> bool {
        true
    }
    fn part(&self, r: &B) -> (usize, usize) {
        (place(self.0.as_ptr(), r.as_ptr(), 1), r.len())
    }
}
impl Model for Refs {
    type T = &'static u8;
    type R = B;
    fn n(&self) -> usize {
        self.0.len()
    }
    fn is(&self, i: usize, t: &&'static u8) -> bool {
        std::ptr::eq(*t, &self.0[i])
    }
    fn at(&self, i: usize) -> usize {
        i
    }
    fn boundary(&self, u: usize) -> bool {
        true
    }
    fn part(&self, r: &B) -> (usize, usize) {
        (place(self.0.as_ptr(), r.as_ptr(), 1), r.len())
    }
}
impl Model for Words {
    type T = u16;
    type R = &'static [u16];
    fn n(&self) -> usize {
        self.0.len()
    }
    fn is(&self, i: usize, t: &u16) -> bool {
        *t == self.0[i]
    }
    fn at(&self, i: usize) -> usize {
        i
    }
    fn boundary(&self, u: usize) -> bool {
        true
    }
    fn part(&self, r: &&'static [u16]) -> (usize, usize) {
        (place(self.0.as_ptr() as *const u8, r.as_ptr() as *const u8, 2), r.len())
    }
}
impl Model for Text {
    type T = char;
    type R = S;
    fn n(&self) -> usize {
        self.n
    }
    fn is(&self, i: usize, t: &char) -> bool {
        *t == self.c[i]
    }
    fn at(&self, i: usize) -> usize {
        self.at[i]
    }
    fn boundary(&self, u: usize) -> bool {
        Text::boundary(self, u)
    }
    fn part(&self, r: &S) -> (usize, usize) {
        (place(self.s.as_ptr(), r.as_ptr(), 1), r.len())
    }
}

/// What an operation did: where the stream stands now, in units.
pub struct Done {
    pub at: usize,
    pub ok: bool,
}

/// `uncons` from the start of the contents.
pub fn uncons_op<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &mut S, m: &M) -> Done {
    let d = match st.uncons() {
        Ok(t) => {
            check!(m.n() > 0 && m.is(0, &t), "uncons gives the next token");
            Done { at: m.at(1), ok: true }
        }
        Err(e) => {
            check!(m.n() == 0, "uncons fails only at the end");
            check!(e.is_unexpected_end_of_input(), "the end of the input is reported as such");
            Done { at: 0, ok: false }
        }
    };
    rest(st, m, &d);
    d
}
pub fn uncons_range_op<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &mut S, m: &M) -> Done {
    let size = nd::usize();
    let end = m.at(m.n());
    let d = match st.uncons_range(size) {
        Ok(r) => {
            check!(size <= end && m.boundary(size), "a range is only given where the input can be split");
            check!(m.part(&r) == (if size == 0 { m.part(&r).0 } else { 0 }, size), "the range is the next part of the input, as long as asked for");
            Done { at: size, ok: true }
        }
        Err(e) => {
            check!(size > end || !m.boundary(size), "a range that is there is given");
            check!(e.is_unexpected_end_of_input() == (size > end), "missing input is told from an impossible split");
            Done { at: 0, ok: false }
        }
    };
    rest(st, m, &d);
    d
}
/// The predicate is an arbitrary function of the number of tokens it has seen.
pub fn uncons_while_op<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &mut S, m: &M, bound: u8) -> Done {
    let k = nd::below(bound) as usize;
    let n = if k < m.n() { k } else { m.n() };
    let mut calls = 0;
    let mut order = true;
    let r = st.uncons_while(|t| {
        order = order && calls < m.n() && m.is(calls, &t);
        calls += 1;
        calls <= k
    });
    check!(order, "the predicate sees the tokens once each, in order");
    check!(calls == if k < m.n() { k + 1 } else { m.n() }, "the predicate sees the tokens up to the first that fails");
    match r {
        Ok(r) => {
            check!(m.part(&r).1 == m.at(n) && (n == 0 || m.part(&r).0 == 0), "the range is the longest prefix that passes");
        }
        Err(_) => check!(false, "uncons_while does not fail"),
    }
    let d = Done { at: m.at(n), ok: true };
    rest(st, m, &d);
    d
}
pub fn uncons_while1_op<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &mut S, m: &M, bound: u8) -> Done {
    let k = nd::below(bound) as usize;
    let n = if k < m.n() { k } else { m.n() };
    let mut calls = 0;
    let mut order = true;
    let r = st.uncons_while1(|t| {
        order = order && calls < m.n() && m.is(calls, &t);
        calls += 1;
        calls <= k
    });
    check!(order, "the predicate sees the tokens once each, in order");
    check!(calls == if k < m.n() { k + 1 } else { m.n() }, "the predicate sees the tokens up to the first that fails");
    let d = match r {
        ParseResult::CommitOk(r) => {
            check!(n > 0, "uncons_while1 needs a token that passes");
            check!(m.part(&r) == (0, m.at(n)), "the range is the longest prefix that passes");
            Done { at: m.at(n), ok: true }
        }
        ParseResult::PeekErr(e) => {
            check!(n == 0, "a token that passes is taken");
            check!(e.error.is_unexpected_end_of_input() == (m.n() == 0), "the end of the input is told from a token that does not pass");
            Done { at: 0, ok: false }
        }
        _ => {
            check!(false, "uncons_while1 commits exactly if it takes something");
            Done { at: 0, ok: false }
        }
    };
    rest(st, m, &d);
    d
}
/// The stream now holds exactly what has not been taken.
pub fn rest<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &S, m: &M, d: &Done) {
    let left = st.range();
    let end = m.at(m.n());
    check!(m.part(&left).1 == end - d.at, "what is not taken stays");
    check!(d.at == end || m.part(&left).0 == d.at, "the stream stands right behind what was taken");
}
pub fn any_op<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(st: &mut S, m: &M) -> Done {
    match nd::below(4) {
        0 => uncons_op(st, m),
        1 => uncons_range_op(st, m),
        2 => uncons_while_op(st, m, 6),
        _ => uncons_while1_op(st, m, 6),
    }
}

harnesses! {
    [3] fn uncons_slice() { let m = bytes(); uncons_op(&mut m.0.clone(), &m); }
    [3] fn uncons_words() { let m = words(); uncons_op(&mut m.0.clone(), &m); }
    [3] fn uncons_refs() { let m = bytes(); uncons_op(&mut SliceStream(m.0), &Refs(m.0)); }
    [3] fn uncons_str() { let m = text(); uncons_op(&mut m.s.clone(), &m); }
    [3] fn uncons_any_char() {
        // every character, not only the representatives
        let c = nd::char();
        let mut buf = [0u8; 4];
        let s = c.encode_utf8(&mut buf);
        let mut st = &*s;
        check!(st.uncons() == Ok(c) && st.len() == 0, "uncons decodes every character");
    }
    [3] fn uncons_range_slice() { let m = bytes(); uncons_range_op(&mut m.0.clone(), &m); }
    [3] fn uncons_range_words() { let m = words(); uncons_range_op(&mut m.0.clone(), &m); }
    [3] fn uncons_range_refs() { let m = bytes(); uncons_range_op(&mut SliceStream(m.0), &Refs(m.0)); }
    [3] fn uncons_range_str() { let m = text(); uncons_range_op(&mut m.s.clone(), &m); }
    /// Text is never split inside a character, whatever the character.
    [3] fn uncons_range_any_char() {
        let c = nd::char();
        let mut buf = [b'a'; 5];
        let l = c.encode_utf8(&mut buf).len();
        let s = unsafe { std::str::from_utf8_unchecked(&buf) };
        let n = nd::below(7) as usize;
        let mut st = s;
        let r = st.uncons_range(n);
        if n == 0 || n >= l && n <= 5 {
            check!(r.map_or(false, |r| r.len() == n && r.as_ptr() == s.as_ptr()) && st.len() == 5 - n, "text is split between characters");
        } else {
            check!(r.is_err() && st.len() == 5, "text is not split inside a character");
        }
    }
    [22, "inputs of up to 20 tokens"] fn uncons_while_slice() { let m = Bytes(long()); uncons_while_op(&mut m.0.clone(), &m, 22); }
    [22, "inputs of up to 20 tokens"] fn uncons_while1_slice() { let m = Bytes(long()); uncons_while1_op(&mut m.0.clone(), &m, 22); }
    [22, "inputs of up to 20 tokens"] fn uncons_while_refs() { let m = long(); uncons_while_op(&mut SliceStream(m), &Refs(m), 22); }
    [22, "inputs of up to 20 tokens"] fn uncons_while1_refs() { let m = long(); uncons_while1_op(&mut SliceStream(m), &Refs(m), 22); }
    [7, "inputs of up to 4 tokens"] fn uncons_while_words() { let m = words(); uncons_while_op(&mut m.0.clone(), &m, 6); }
    [2, "texts of up to 3 characters"] fn uncons_while_str() { let m = text(); uncons_while_op(&mut m.s.clone(), &m, 6); }
    [2, "texts of up to 3 characters"] fn uncons_while1_str() { let m = text(); uncons_while1_op(&mut m.s.clone(), &m, 6); }
    /// Text of up to ten one byte characters, to reach the second round of the scanning loop.
    [3, "texts of up to 10 characters"] fn uncons_while_long_str() {
        let all = "abcdefghij";
        let s = &all[..nd::below(11) as usize];
        let k = nd::below(12) as usize;
        let n = if k < s.len() { k } else { s.len() };
        let mut calls = 0;
        let mut st = s;
        let mut order = true;
        let r = st.uncons_while(|c| {
            order = order && calls < 10 && c as u32 == b'a' as u32 + calls as u32;
            calls += 1;
            calls <= k
        });
        check!(order && calls == if k < s.len() { k + 1 } else { n }, "the predicate sees the tokens once each, in order, up to the first that fails");
        check!(r.map_or(false, |r| r.len() == n && r.as_ptr() == s.as_ptr()) && st.len() == s.len() - n, "the range is the longest prefix that passes");
    }
    [4] fn iterator() {
        let s = [nd::u8(), nd::u8()];
        let n = nd::below(3) as usize;
        let mut st = IteratorStream::new(s[..n].iter().cloned());
        check!(st.uncons() == if n > 0 { Ok(s[0]) } else { Err(UnexpectedParse::Eoi) }, "uncons gives the next item");
        check!(st.uncons() == if n > 1 { Ok(s[1]) } else { Err(UnexpectedParse::Eoi) }, "uncons gives the next item");
        check!(st.uncons() == Err(UnexpectedParse::Eoi), "the end of the input is reported as such");
    }
    /// The functions parsers use, on a complete input.
    [4] fn free_uncons() {
        let m = bytes();
        let mut st = m.0;
        let r = uncons(&mut st);
        check!(crate::c08::kind(&r) == if m.n() > 0 { crate::model::COMMIT_OK } else { crate::model::PEEK_ERR }, "taking a token commits, the end of the input does not");
        check!(crate::c08::val(r) == m.0.first().cloned(), "the next token is taken");
    }
    /// `after` of a checkpoint is what has been consumed since.
    [7, "inputs of up to 4 tokens"] fn distance_slice() {
        let m = bytes();
        let mut st = m.0;
        let before = st.checkpoint();
        let d = any_op(&mut st, &m);
        check!(st.distance(&before) == d.at, "the distance is what has been consumed");
    }
    [7, "inputs of up to 4 tokens"] fn distance_words() {
        let m = words();
        let mut st = m.0;
        let before = st.checkpoint();
        let d = any_op(&mut st, &m);
        check!(st.distance(&before) == d.at, "the distance is what has been consumed");
    }
    [7, "inputs of up to 4 tokens"] fn distance_refs() {
        let m = bytes();
        let mut st = SliceStream(m.0);
        let before = st.checkpoint();
        let d = any_op(&mut st, &Refs(m.0));
        check!(st.distance(&before) == d.at, "the distance is what has been consumed");
    }
    [2, "texts of up to 3 characters"] fn distance_str() {
        let m = text();
        let mut st = m.s;
        let before = st.checkpoint();
        let d = any_op(&mut st, &m);
        check!(st.distance(&before) == d.at, "the distance is what has been consumed");
    }
}
