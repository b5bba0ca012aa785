//! C09 range parsers return exactly the documented part of the input itself, without copying.
use crate::c08::{kind, val};
use crate::model::{COMMIT_ERR, COMMIT_OK, PEEK_ERR, PEEK_OK};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::range::*;
use combine::parser::token::any;
use combine::parser::{byte, combinator};
use combine::stream::{RangeStream, StreamOnce};
use combine::*;

pub type B = &'static [u8];
pub type S = &'static str;
pub const N: usize = 4;
static mut DATA: [u8; 3 * N] = [0; 3 * N];

/// Up to four arbitrary bytes.
pub fn bytes() -> B {
    unsafe {
        let d = &mut *std::ptr::addr_of_mut!(DATA);
        let mut i = 0;
        while i < N {
            d[i] = nd::u8();
            i += 1;
        }
        &(&*std::ptr::addr_of!(DATA))[..nd::below(N as u8 + 1) as usize]
    }
}

pub const CHARS: [char; 4] = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}'];

/// Text of up to three characters of one to four bytes, and where each starts.
pub struct Text {
    pub s: S,
    pub c: [char; 3],
    pub n: usize,
    pub at: [usize; 4],
}
pub fn text() -> Text {
    let n = nd::below(4) as usize;
    let mut t = Text { s: "", c: ['a'; 3], n, at: [0; 4] };
    unsafe {
        // no loops, they would be unwound as often as those of the code
        let d = &mut *std::ptr::addr_of_mut!(DATA);
        put(d, &mut t, 0);
        put(d, &mut t, 1);
        put(d, &mut t, 2);
        t.s = std::str::from_utf8_unchecked(&(&*std::ptr::addr_of!(DATA))[..t.at[n]]);
    }
    t
}
/// The same, with any of the control characters that end lines or look like it among the ASCII characters.
pub fn lines() -> Text {
    let mut t = text();
    control(&mut t, 0);
    control(&mut t, 1);
    control(&mut t, 2);
    t.s = unsafe { std::str::from_utf8_unchecked(&(&*std::ptr::addr_of!(DATA))[..t.at[t.n]]) };
    t
}
fn control(t: &mut Text, i: usize) {
    if i < t.n && t.c[i] == 'a' {
        t.c[i] = ['a', '\n', '\r', '\t'][nd::below(4) as usize];
        unsafe {
            (&mut *std::ptr::addr_of_mut!(DATA))[t.at[i]] = t.c[i] as u8;
        }
    }
}
fn put(d: &mut [u8; 12], t: &mut Text, i: usize) {
    if i >= t.n {
        return;
    }
    let at = t.at[i];
    let w = nd::below(4) as usize;
    t.c[i] = CHARS[w];
    t.at[i + 1] = at + w + 1;
    match w {
        0 => d[at] = b'a',
        1 => {
            d[at] = 0xc3;
            d[at + 1] = 0xa9;
        }
        2 => {
            d[at] = 0xe2;
            d[at + 1] = 0x82;
            d[at + 2] = 0xac;
        }
        _ => {
            d[at] = 0xf0;
            d[at + 1] = 0x9f;
            d[at + 2] = 0x98;
            d[at + 3] = 0x80;
        }
    }
}
impl Text {
    pub fn len(&self) -> usize {
        self.at[self.n]
    }
    /// How many leading characters pass.
    pub fn run(&self, ok: impl Fn(char) -> bool) -> usize {
        if self.n == 0 || !ok(self.c[0]) {
            0
        } else if self.n == 1 || !ok(self.c[1]) {
            1
        } else if self.n == 2 || !ok(self.c[2]) {
            2
        } else {
            3
        }
    }
    pub fn boundary(&self, i: usize) -> bool {
        i == 0 || i == self.at[1] && self.n >= 1 || i == self.at[2] && self.n >= 2 || i == self.at[3] && self.n >= 3
    }
}

/// Success with the first `n` elements of the input, or failure; `committed` if that is specified.
pub enum Want {
    Len(usize),
    Fail,
    FailWith(u8),
}
pub use Want::*;

pub trait Part: Copy {
    fn whereabouts(self) -> (*const u8, usize);
}
impl Part for B {
    fn whereabouts(self) -> (*const u8, usize) {
        (self.as_ptr(), self.len())
    }
}
impl Part for S {
    fn whereabouts(self) -> (*const u8, usize) {
        (self.as_ptr(), self.len())
    }
}

pub fn exact<I: Part + StreamOnce<Range = I> + RangeStream, P: Parser<I, Output = I>>(mut p: P, s: I, want: Want) {
    let mut st = s;
    let (ptr, len) = s.whereabouts();
    let r = p.parse_stream(&mut st);
    let k = kind(&r);
    match want {
        Len(n) => {
            check!(k == if n == 0 { PEEK_OK } else { COMMIT_OK }, "it matches, and commits exactly if the range is not empty");
            if let Some(o) = val(r) {
                check!(o.whereabouts() == (ptr, n), "the range is exactly the documented part of the input, not a copy");
                check!(st.whereabouts() == (ptr.wrapping_add(n), len - n), "exactly the range is consumed");
            }
        }
        Fail => check!(k == PEEK_ERR || k == COMMIT_ERR, "without a match it fails"),
        FailWith(w) => check!(k == w, "without a match it fails, with the right commit status"),
    }
}

/// A parser of bytes with a fixed outcome.
#[derive(Clone)]
struct Sub(usize, u8, u32);
fn sub_with(n: usize, k: u8, v: u32) -> Sub {
    Sub(n, k, v)
}
impl Parser<B> for Sub {
    type Output = u32;
    type PartialState = ();
    fn parse_lazy(&mut self, input: &mut B) -> ParseResult<u32, UnexpectedParse> {
        *input = &input[self.0..];
        match self.1 {
            PEEK_OK => ParseResult::PeekOk(self.2),
            COMMIT_OK => ParseResult::CommitOk(self.2),
            PEEK_ERR => ParseResult::PeekErr(UnexpectedParse::Unexpected.into()),
            _ => ParseResult::CommitErr(UnexpectedParse::Unexpected),
        }
    }
}
/// An arbitrary sub parser respecting the contract of `Parser`, with what it does.
fn any_sub(s: B) -> Sub {
    let k = nd::below(4);
    let n = nd::within(0, s.len() as u8) as usize;
    nd::assume((k == COMMIT_OK) == (n > 0) || k == PEEK_ERR || k == COMMIT_ERR);
    sub_with(n, k, nd::u32())
}

fn find(s: B, f: impl Fn(usize) -> bool) -> Want {
    let mut i = 0;
    while i < s.len() {
        if f(i) {
            return Len(i);
        }
        i += 1;
    }
    Fail
}

harnesses! {
    [8, "inputs of up to 4 bytes"] fn range_() {
        let s = bytes();
        let w: &'static [u8] = unsafe {
            static mut W: [u8; 3] = [0; 3];
            W = [nd::u8(), nd::u8(), nd::u8()];
            &(&*std::ptr::addr_of!(W))[..nd::below(4) as usize]
        };
        let mut same = w.len() <= s.len();
        let mut i = 0;
        while i < w.len() {
            same = same && s[i] == w[i];
            i += 1;
        }
        // the output may be the literal: it is equal to the input
        let mut st = s;
        let r = range(w).parse_stream(&mut st);
        if same {
            check!(kind(&r) == if w.len() == 0 { PEEK_OK } else { COMMIT_OK }, "range matches its literal, and commits exactly if it is not empty");
            check!(st.as_ptr() == s.as_ptr().wrapping_add(w.len()) && st.len() == s.len() - w.len(), "exactly the range is consumed");
            check!(val(r) == Some(w), "the output is the range");
        } else {
            check!(kind(&r) == PEEK_ERR, "range refuses anything else without committing");
        }
        cover!(same && w.len() == 3, "match");
    }
    [6] fn take_() {
        let s = bytes();
        let n = nd::usize();
        exact(take(n), s, if n <= s.len() { Len(n) } else { FailWith(PEEK_ERR) });
    }
    /// Text is never split inside a character.
    [6, "texts of up to 3 characters"] fn take_str() {
        let t = text();
        let n = nd::u8() as usize;
        exact(take(n), t.s, if n <= t.len() && t.boundary(n) { Len(n) } else { FailWith(PEEK_ERR) });
    }
    [8, "inputs of up to 4 bytes"] fn take_while_() {
        let s = bytes();
        let (x, y) = (nd::u8(), nd::u8());
        let mut n = 0;
        while n < s.len() && s[n] & x == y {
            n += 1;
        }
        let mut calls = 0;
        exact(take_while(|c: u8| { check!(c == s[calls], "the predicate sees each token once, in order"); calls += 1; c & x == y }), s, Len(n));
        check!(calls == if n < s.len() { n + 1 } else { n }, "the predicate sees the tokens up to the first that fails");
    }
    [8, "inputs of up to 4 bytes"] fn take_while1_() {
        let s = bytes();
        let (x, y) = (nd::u8(), nd::u8());
        let mut n = 0;
        while n < s.len() && s[n] & x == y {
            n += 1;
        }
        let mut calls = 0;
        exact(take_while1(|c: u8| { check!(c == s[calls], "the predicate sees each token once, in order"); calls += 1; c & x == y }), s, if n > 0 { Len(n) } else { FailWith(PEEK_ERR) });
        check!(calls == if n < s.len() { n + 1 } else { n }, "the predicate sees the tokens up to the first that fails");
    }
    [2, "texts of up to 3 characters"] fn take_while_str() {
        let t = text();
        let m = nd::below(16);
        let ok = |c: char| m & (c.len_utf8() as u8) == c.len_utf8() as u8;
        let n = t.run(ok);
        if nd::bool() {
            exact(take_while(ok), t.s, Len(t.at[n]));
        } else {
            exact(take_while1(ok), t.s, if n > 0 { Len(t.at[n]) } else { FailWith(PEEK_ERR) });
        }
    }
    [8, "inputs of up to 4 bytes"] fn take_until_range_() {
        let s = bytes();
        let w: &'static [u8] = unsafe {
            static mut W: [u8; 2] = [0; 2];
            W = [nd::u8(), nd::u8()];
            &(&*std::ptr::addr_of!(W))[..nd::below(3) as usize]
        };
        let want = if w.len() == 0 { Len(0) } else { find(s, |i| s[i] == w[0] && (w.len() == 1 || i + 1 < s.len() && s[i + 1] == w[1])) };
        exact(take_until_range(w), s, want);
    }
    [6, "texts of up to 3 characters"] fn take_until_range_str() {
        let t = text();
        let i = nd::below(4) as usize;
        let w = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][i];
        let n = t.run(|c| c != CHARS[i]);
        exact(take_until_range(w), t.s, if n < t.n { Len(t.at[n]) } else { Fail });
    }
    [6] fn take_fn_() {
        let s = bytes();
        let i = nd::usize();
        let found = nd::bool();
        exact(take_fn(|r: B| {
            check!(r.whereabouts() == s.whereabouts(), "the searcher sees the remaining input");
            if found { TakeRange::Found(i) } else { TakeRange::NotFound(i) }
        }), s, if found && i <= s.len() { Len(i) } else { Fail });
    }
    [6] fn take_fn_option() {
        let s = bytes();
        let i = if nd::bool() { Some(nd::usize()) } else { None };
        exact(take_fn(|r: B| i), s, match i { Some(i) if i <= s.len() => Len(i), _ => Fail });
    }
    [6] fn recognize_() {
        let s = bytes();
        let p = any_sub(s);
        exact(recognize(p.clone()), s, match p.1 { PEEK_OK | COMMIT_OK => Len(p.0), k => FailWith(k) });
    }
    [6] fn recognize_with_value_() {
        let s = bytes();
        let p = any_sub(s);
        let mut st = s;
        let r = recognize_with_value(p.clone()).parse_stream(&mut st);
        check!(kind(&r) == p.1, "recognize has the outcome of its parser");
        if let Some((o, v)) = val(r) {
            check!(v == p.2, "the value is that of the parser");
            check!(o.whereabouts() == (s.as_ptr(), p.0), "the range is what the parser consumed");
            check!(st.whereabouts() == (s.as_ptr().wrapping_add(p.0), s.len() - p.0), "exactly the range is consumed");
        }
    }
    [8, "inputs of up to 4 bytes"] fn recognize_tokens() {
        let s = bytes();
        let p = any_sub(s);
        let mut st = s;
        let r = combinator::recognize::<Toks, _, _>(p.clone()).parse_stream(&mut st);
        check!(kind(&r) == p.1, "recognize has the outcome of its parser");
        if let Some(o) = val(r) {
            check!(o.n == p.0, "every token the parser consumed is collected once");
            let mut i = 0;
            while i < p.0 {
                check!(o.v[i] == s[i], "the tokens are collected in order");
                i += 1;
            }
            check!(st.whereabouts() == (s.as_ptr().wrapping_add(p.0), s.len() - p.0), "exactly the parsed tokens are consumed");
        }
    }
    [6] fn length_prefix_() {
        let s = bytes();
        let mut st = s;
        let r = length_prefix(any().map(|c: u8| c as i8)).parse_stream(&mut st);
        let n = if s.len() > 0 { s[0] as i8 } else { -1 };
        if s.len() == 0 {
            check!(kind(&r) == PEEK_ERR, "no length, no match");
        } else if n >= 0 && n as usize <= s.len() - 1 {
            check!(kind(&r) == COMMIT_OK, "a complete prefixed range matches");
            check!(val(r).unwrap().whereabouts() == (s.as_ptr().wrapping_add(1), n as usize), "the range follows its length");
            check!(st.len() == s.len() - 1 - n as usize, "exactly the length and the range are consumed");
        } else {
            check!(kind(&r) == COMMIT_ERR, "a length that is negative or more than there is fails");
        }
        cover!(n < 0 && s.len() > 0, "negative");
    }
    [8, "inputs of up to 4 bytes"] fn take_until_byte_() {
        let s = bytes();
        let a = nd::u8();
        exact(byte::take_until_byte(a), s, find(s, |i| s[i] == a));
    }
    [8, "inputs of up to 4 bytes"] fn take_until_byte2_() {
        let s = bytes();
        let (a, b) = (nd::u8(), nd::u8());
        exact(byte::take_until_byte2(a, b), s, find(s, |i| s[i] == a || s[i] == b));
    }
    [8, "inputs of up to 4 bytes"] fn take_until_byte3_() {
        let s = bytes();
        let (a, b, c) = (nd::u8(), nd::u8(), nd::u8());
        exact(byte::take_until_byte3(a, b, c), s, find(s, |i| s[i] == a || s[i] == b || s[i] == c));
    }
    [8, "inputs of up to 4 bytes"] fn take_until_bytes_() {
        let s = bytes();
        let w = [nd::u8(), nd::u8(), nd::u8()];
        let n = nd::below(4) as usize;
        let want = if n == 0 { Len(0) } else { find(s, |i| {
            let mut j = 0;
            while j < n && i + j < s.len() && s[i + j] == w[j] {
                j += 1;
            }
            j == n
        }) };
        exact(byte::take_until_bytes(&w[..n]), s, want);
    }
    /// Fed in two chunks that may end inside the needle.
    [10, "texts of up to 2 characters"] fn take_until_bytes_str() {
        type M = combine::stream::MaybePartialStream<&'static str>;
        let t = text();
        nd::assume(t.n <= 2);
        let k = nd::within(0, t.n as u8) as usize;
        let i = nd::below(4) as usize;
        let w = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][i];
        let mut p = byte::take_until_bytes::<M>(w.as_bytes());
        let mut state = Default::default();
        let n = t.run(|c| c != CHARS[i]);
        let mut st = combine::stream::MaybePartialStream(&t.s[..t.at[k]], true);
        let mut r = p.parse_stream_partial(&mut st, &mut state);
        if n >= k {
            check!(kind(&r) == COMMIT_ERR, "it waits for the needle");
            check!(st.0.len() == t.at[k], "nothing is lost while waiting");
            st = combine::stream::MaybePartialStream(t.s, false);
            r = p.parse_stream_partial(&mut st, &mut state);
        }
        if n < t.n {
            check!(kind(&r) == if n == 0 { PEEK_OK } else { COMMIT_OK }, "the needle is found");
            check!(val(r).unwrap().whereabouts() == (t.s.as_ptr(), t.at[n]), "the range ends right before the needle");
        } else {
            check!(val(r).is_none(), "without the needle it fails");
        }
        cover!(n >= k && n < t.n && n > 0, "found in the second chunk");
    }
}

#[derive(Default)]
pub struct Toks {
    n: usize,
    v: [u8; 5],
}
impl Extend<u8> for Toks {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = u8>,
    {
        for x in iter {
            self.v[self.n] = x;
            self.n += 1;
        }
    }
}
