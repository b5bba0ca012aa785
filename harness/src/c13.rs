//! C13 positions count exactly the tokens consumed.
use crate::c09::{lines, text, B, S};
use crate::c10::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::stream::position::{self, IndexPositioner, Positioner, RangePositioner, SourcePosition};
use combine::stream::*;
use combine::*;

/// A positioner whose position is the tokens it has been told about.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Seen {
    pub n: usize,
    pub t: [u32; 5],
}
impl Seen {
    fn see(&mut self, t: u32) {
        if self.n < 5 {
            self.t[self.n] = t;
        }
        self.n += 1;
    }
}
macro_rules! seen {
    ($t:ty) => {
        impl Positioner<$t> for Seen {
            type Position = Seen;
            type Checkpoint = Seen;
            fn position(&self) -> Seen {
                *self
            }
            fn update(&mut self, t: &$t) {
                self.see(*t as u32)
            }
            fn checkpoint(&self) -> Seen {
                *self
            }
            fn reset(&mut self, c: Seen) {
                *self = c
            }
        }
    };
}
seen!(u8);
seen!(char);
impl RangePositioner<u8, B> for Seen {
    fn update_range(&mut self, r: &B) {
        for t in *r {
            self.see(*t as u32)
        }
    }
}
impl<'a> RangePositioner<char, &'a str> for Seen {
    fn update_range(&mut self, r: &&'a str) {
        for t in r.chars() {
            self.see(t as u32)
        }
    }
}

fn newline(p: SourcePosition, nl: bool) -> SourcePosition {
    if nl {
        SourcePosition { line: p.line.wrapping_add(1), column: 1 }
    } else {
        SourcePosition { line: p.line, column: p.column.wrapping_add(1) }
    }
}
fn any_pos() -> SourcePosition {
    // as many lines and columns as fit
    let p = SourcePosition { line: nd::u32() as i32, column: nd::u32() as i32 };
    nd::assume(p.line < i32::MAX - 8 && p.column < i32::MAX - 8);
    p
}

harnesses! {
    [2] fn source_char() {
        let (p, c) = (any_pos(), nd::char());
        let mut q = p;
        q.update(&c);
        check!(Positioner::<char>::position(&q) == newline(p, c == '\n'), "a line feed starts a line, anything else is a column");
    }
    [2] fn source_byte() {
        let (p, c) = (any_pos(), nd::u8());
        let mut q = p;
        q.update(&c);
        check!(Positioner::<u8>::position(&q) == newline(p, c == b'\n'), "a line feed starts a line, anything else is a column");
    }
    [2] fn source_start() {
        let p = SourcePosition::new();
        check!(p.line == 1 && p.column == 1 && p == SourcePosition::default(), "positions start at line 1, column 1");
        let s = position::Stream::new("a");
        check!(s.position() == p, "a stream starts at line 1, column 1");
        let s = position::Stream::new(&b"a"[..]);
        check!(s.position() == 0, "an index starts at 0");
    }
    [2] fn source_order() {
        let (p, q) = (any_pos(), any_pos());
        check!((p < q) == (p.line < q.line || p.line == q.line && p.column < q.column), "positions are ordered by line, then column");
    }
    [8, "texts of up to 3 characters"] fn source_range() {
        let t = lines();
        let p = any_pos();
        let mut q = p;
        q.update_range(&t.s);
        let mut e = p;
        if t.n > 0 { e = newline(e, t.c[0] == '\n'); }
        if t.n > 1 { e = newline(e, t.c[1] == '\n'); }
        if t.n > 2 { e = newline(e, t.c[2] == '\n'); }
        check!(q == e, "a range counts like its characters");
        // and with line feeds
        let (mut q, mut e) = (p, p);
        q.update_range(&"a\n\u{e9}\n\nb");
        e = newline(newline(newline(newline(newline(newline(e, false), true), false), true), true), false);
        check!(q == e, "a range counts like its characters, line feeds included");
    }
    [4] fn source_checkpoint() {
        let p = any_pos();
        let mut q = p;
        let c = Positioner::<char>::checkpoint(&q);
        q.update(&nd::char());
        Positioner::<char>::reset(&mut q, c);
        check!(q == p, "a checkpoint restores the position");
        let i = nd::usize();
        nd::assume(i < usize::MAX - 8);
        let mut q = IndexPositioner::new_with_position(i);
        let c = Positioner::<char>::checkpoint(&q);
        q.update(&nd::char());
        check!(Positioner::<char>::position(&q) == i + 1, "each token counts one");
        RangePositioner::<char, &str>::update_range(&mut q, &"a\u{e9}");
        check!(Positioner::<char>::position(&q) == i + 1 + 3, "a range counts its length");
        Positioner::<char>::reset(&mut q, c);
        check!(Positioner::<char>::position(&q) == i, "a checkpoint restores the position");
    }
    /// The positioner of a stream is told every token consumed once, in order, and no other.
    [7, "inputs of up to 4 tokens"] fn stream_bytes() {
        let m = bytes();
        let mut st = position::Stream::with_positioner(m.0, Seen::default());
        let d = any_op(&mut st, &m);
        let seen = st.position();
        check!(seen.n == d.at, "as many tokens are counted as consumed");
        check!((d.at < 1 || seen.t[0] == m.0[0] as u32) && (d.at < 2 || seen.t[1] == m.0[1] as u32)
            && (d.at < 3 || seen.t[2] == m.0[2] as u32) && (d.at < 4 || seen.t[3] == m.0[3] as u32), "the tokens consumed are the ones counted");
        cover!(d.at == 4, "all");
    }
    [3, "texts of up to 2 characters"] fn stream_str() {
        let m = text();
        nd::assume(m.n <= 2);
        let mut st = position::Stream::with_positioner(m.s, Seen::default());
        let d = any_op(&mut st, &m);
        let seen = st.position();
        check!(seen.n <= m.n && m.at[seen.n] == d.at, "as many tokens are counted as consumed");
        check!((seen.n < 1 || seen.t[0] == m.c[0] as u32) && (seen.n < 2 || seen.t[1] == m.c[1] as u32), "the tokens consumed are the ones counted");
        cover!(seen.n == 2, "all");
    }
    [7, "inputs of up to 4 tokens"] fn stream_index() {
        let m = bytes();
        let i = nd::u8() as usize;
        let mut st = position::Stream::with_positioner(m.0, IndexPositioner::new_with_position(i));
        let d = any_op(&mut st, &m);
        check!(st.position() == i + d.at, "the index counts what has been consumed");
    }
    /// Through a reference to a positioner.
    [7, "inputs of up to 4 tokens"] fn stream_ref() {
        let m = bytes();
        let mut p = Seen::default();
        let d = any_op(&mut position::Stream::with_positioner(m.0, &mut p), &m);
        check!(p.n == d.at, "a positioner behind a reference counts the same");
        let mut q = &mut p;
        let c = Positioner::<u8>::checkpoint(&q);
        q.update(&1u8);
        check!(Positioner::<u8>::position(&q).n == d.at + 1, "a positioner behind a reference counts the same");
        Positioner::<u8>::reset(&mut q, c);
        check!(p.n == d.at, "a positioner behind a reference is reset");
    }
    /// Addresses of slices and text are positions: they grow with what is consumed and translate to offsets.
    [7, "inputs of up to 4 tokens"] fn pointer_bytes() {
        let m = bytes();
        let mut st = m.0;
        let d = any_op(&mut st, &m);
        check!(st.position().translate_position(m.0) == d.at, "an address translates to the offset in the input");
        check!((st.position() > m.0.position()) == (d.at > 0), "positions are ordered as consumed");
    }
    [2, "texts of up to 3 characters"] fn pointer_str() {
        let m = text();
        let mut st = m.s;
        let d = any_op(&mut st, &m);
        check!(st.position().translate_position(m.s) == d.at, "an address translates to the offset in the input");
    }
}
