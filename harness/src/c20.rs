//! C20 no grammar, count, input or history makes the library itself misbehave.
//!
//! Kani adds its own obligations to every harness: no panic, no overflow, no access outside of an
//! allocation and no `unreachable_unchecked` reached.
use crate::c09::{bytes, text, B, S};
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::combinator::any_partial_state;
use combine::parser::range::*;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::stream::*;
use combine::*;

/// A collection that remembers the most it was told to make room for.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Room {
    pub most: usize,
    pub n: u8,
}
impl<T> Extend<T> for Room {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        self.most = self.most.max(it.size_hint().0);
        check!(self.most <= MOST, "no more room is asked for than the input can justify");
        while let Some(_) = it.next() {
            self.n += 1;
        }
    }
}
const MOST: usize = 4096;

/// An iterator that promises any number of items.
#[derive(Clone)]
struct Promise(usize, u8);
impl Iterator for Promise {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        Some(self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, None)
    }
}

/// Runs `p`, and once more if it asks for more input; looks at what it built.
fn room<P: Parser<St, Output = Room>>(mut p: P) {
    let mut st = any_st(nd::bool());
    let mut s = Default::default();
    start(3);
    let mut r = out(if nd::bool() { p.parse_mode(FirstMode, &mut st, &mut s) } else { p.parse_mode(PartialMode::default(), &mut st, &mut s) });
    if r.kind == COMMIT_ERR && calls() > 0 && ev(calls() - 1).kind == SUSPEND {
        r = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
    }
    if let Some(x) = r.val {
        cover!(x.n > 0, "something was parsed");
    }
}
/// Runs `p` again and again with the same state, whatever became of the runs before.
pub fn reuse<P: Parser<St>>(mut p: P, runs: usize) {
    let mut st = any_st(true);
    let mut s = Default::default();
    start(4);
    let mut i = 0;
    while i < runs && calls() < 7 {
        // What callers can do: start, and go on with whatever state there is
        if i == 0 && nd::bool() {
            p.parse_mode(FirstMode, &mut st, &mut s);
        } else {
            p.parse_mode(PartialMode::default(), &mut st, &mut s);
        }
        i += 1;
    }
    cover!(i == runs, "all runs");
}

harnesses! {
    [6, "up to 3 elements"] fn room_count_min_max() {
        let (a, b) = (nd::usize(), nd::usize());
        nd::assume(a <= b);
        room(count_min_max::<Room, _, _>(a, b, Nd(0)))
    }
    [6, "up to 3 elements"] fn room_count() { room(count::<Room, _, _>(nd::usize(), Nd(0))) }
    [6, "up to 3 elements"] fn room_many() { room(many::<Room, _, _>(Nd(0))) }
    [6, "up to 3 elements"] fn room_many1() { room(many1::<Room, _, _>(Nd(0))) }
    [6, "up to 3 elements"] fn room_iterate() { room(iterate::<Room, _, _, _, _>(Promise(nd::usize(), 3), |_: &u8, _: &mut St| Nd(0))) }
    [6] fn reuse_sequence() { reuse((Nd(0), Nd(1), Nd(2)), 3) }
    [6] fn reuse_nested() { reuse((Nd(0), (Nd(1), Nd(2))), 2) }
    [6] fn reuse_choice() { reuse(choice((Nd(0), Nd(1), Nd(2))), 3) }
    [6] fn reuse_array() { reuse(choice([Nd(0), Nd(1), Nd(2)]), 3) }
    [6] fn reuse_then() { reuse(Nd(0).then(|_| Nd(1)), 3) }
    [6] fn reuse_then_either() { reuse(Nd(0).then(|_| if nd::bool() { Nd(1).left() } else { Nd(2).right() }), 3) }
    [6] fn reuse_then_partial() { reuse(Nd(0).then_partial(|_| Nd(1)), 3) }
    [6] fn reuse_then_ref() { reuse(Nd(0).then_ref(|_| Nd(1)), 3) }
    [6] fn reuse_optional() { reuse((optional(Nd(0)), attempt(Nd(1)), look_ahead(Nd(2))), 2) }
    [6] fn reuse_either() {
        let mut p = Nd(0).left();
        if nd::bool() {
            p = Nd(1).right();
        }
        reuse(any_partial_state(p), 3)
    }
    [7, "up to 4 elements"] fn reuse_chainl1() { reuse(chainl1(Nd(0), Nd(1).map(|_| |a: u8, _: u8| a)), 2) }
    [7, "up to 4 elements"] fn reuse_count() {
        let (a, b) = (nd::usize(), nd::usize());
        nd::assume(a <= b);
        reuse(count_min_max::<Room, _, _>(a, b, Nd(0)), 2)
    }
    [7, "up to 4 elements"] fn reuse_repeat_until() { reuse(repeat_until::<Room, _, _, _>(Nd(0), Nd(1)), 2) }
    /// Sizes and distances are arbitrary numbers as far as a stream is concerned.
    [6, "inputs of up to 4 bytes"] fn sizes_bytes() {
        let b = bytes();
        let (n, mut s) = (nd::usize(), b);
        match take::<B>(n).parse_stream(&mut s) {
            ParseResult::PeekOk(r) | ParseResult::CommitOk(r) => check!(r.len() == n && n <= b.len(), "a range is as long as asked for"),
            ParseResult::PeekErr(_) | ParseResult::CommitErr(_) => check!(n > b.len(), "a range that is there can be had"),
        }
        cover!(s.len() < b.len(), "taken");
    }
    [6, "texts of up to 3 characters"] fn sizes_text() {
        let t = text();
        let (n, mut s) = (nd::usize(), t.s);
        match take::<S>(n).parse_stream(&mut s) {
            ParseResult::PeekOk(r) | ParseResult::CommitOk(r) => check!(r.len() == n, "a range is as long as asked for"),
            ParseResult::PeekErr(_) | ParseResult::CommitErr(_) => check!(s.len() == t.s.len(), "a range that is there can be had"),
        }
        cover!(s.len() < t.s.len(), "taken");
    }
    [7, "inputs of up to 4 bytes"] fn predicates_bytes() {
        let b = bytes();
        let mut s = b;
        let mut n = 0;
        let _ = s.uncons_while(|_| {
            n += 1;
            nd::bool()
        });
        check!(n <= b.len() && s.len() <= b.len(), "a predicate is asked about tokens that are there");
        let mut l = SliceStream(b);
        let mut m = 0;
        let _ = l.uncons_while1(|_| {
            m += 1;
            nd::bool()
        });
        check!(m <= b.len() && l.0.len() <= b.len(), "a predicate is asked about tokens that are there");
        cover!(n == 4, "all tokens");
    }
    /// The view of a stream as a complete one is the stream itself.
    [6] fn complete_view() {
        let b = bytes();
        let mut s = PartialStream(b);
        {
            let c: &mut CompleteStream<PartialStream<B>> = (&mut s).into();
            check!(!c.is_partial(), "a complete view is complete");
            let t = c.uncons();
            check!(t.is_ok() == (b.len() > 0), "a view gives the tokens of its stream");
        }
        check!(s.0.len() + (b.len() > 0) as usize == b.len(), "taking from a view takes from its stream");
    }
}
