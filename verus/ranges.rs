// C09: src/parser/range.rs, searching for the end of a range
use vstd::prelude::*;
verus! {
pub trait StreamError: Sized {
    fn end_of_input() -> Self;
}
pub trait ParseError<Position>: Sized {
    type StreamError: StreamError;
    fn from_error(position: Position, err: Self::StreamError) -> (r: Self);
}
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Position>>::StreamError;
/// A range is made of units (bytes, or tokens)
pub trait Range: Sized {
    type Unit;
    spec fn units(&self) -> Seq<Self::Unit>;
    fn len(&self) -> (r: usize)
        ensures r == self.units().len();
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.units().len() == 0);
}
//@ assume PartialEq of ranges compares what they are made of
#[verifier::external_body]
pub fn same<R: Range>(a: &R, b: &R) -> (r: bool)
    ensures r == (a.units() == b.units()),
{ unimplemented!() }
//@ assume a range stream gives a range exactly where it starts and ends between tokens, reads tokens unless it is at its end, and a reset that succeeds goes back to the checkpoint (C10, C11)
pub trait StreamOnce: Sized {
    type Token;
    type Range: Range;
    type Position;
    type Error: ParseError<Self::Position>;
    spec fn units(&self) -> Seq<<Self::Range as Range>::Unit>;
    spec fn at(&self) -> int;
    /// The places between tokens
    spec fn between(&self) -> Set<int>;
    spec fn partial(&self) -> bool;
    /// Resets never fail
    spec fn resets(&self) -> bool;
    proof fn inside(&self)
        ensures 0 <= self.at() <= self.units().len(), self.between().contains(self.at()), self.between().contains(self.units().len() as int),
            self.units().len() <= usize::MAX;
    fn is_partial(&self) -> (r: bool)
        ensures r == self.partial();
    fn position(&self) -> Self::Position;
}
pub open spec fn kept<S: StreamOnce>(a: S, b: S) -> bool {
    a.units() == b.units() && a.between() == b.between() && a.partial() == b.partial() && a.resets() == b.resets()
}
/// Is there a range of n units at place i?
pub open spec fn fits<S: StreamOnce>(s: S, i: int, n: int) -> bool {
    s.between().contains(i) && s.between().contains(i + n) && i + n <= s.units().len()
}
pub open spec fn part<S: StreamOnce>(s: S, i: int, n: int) -> Seq<<S::Range as Range>::Unit> {
    s.units().subrange(i, i + n)
}
pub trait Stream: StreamOnce {
    type Checkpoint;
    fn uncons(&mut self) -> (r: Result<Self::Token, StreamErrorFor<Self>>)
        ensures kept(*old(self), *final(self)),
            match r {
                Ok(t) => old(self).at() < final(self).at() && old(self).between().contains(final(self).at())
                    && forall|i: int| old(self).at() < i < final(self).at() ==> !old(self).between().contains(i),
                Err(_) => old(self).at() == old(self).units().len() && final(self).at() == old(self).at(),
            };
    spec fn cp(c: Self::Checkpoint) -> int;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        ensures Self::cp(r) == self.at();
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        ensures kept(*old(self), *final(self)), r is Ok ==> final(self).at() == Self::cp(checkpoint), old(self).resets() ==> r is Ok;
}
pub trait RangeStream: Stream {
    fn range(&self) -> (r: Self::Range)
        ensures r.units() == self.units().skip(self.at());
    fn uncons_range(&mut self, size: usize) -> (r: Result<Self::Range, StreamErrorFor<Self>>)
        ensures kept(*old(self), *final(self)),
            r is Ok == fits(*old(self), old(self).at(), size as int),
            match r {
                Ok(x) => final(self).at() == old(self).at() + size && x.units() == part(*old(self), old(self).at(), size as int),
                Err(_) => final(self).at() == old(self).at(),
            };
    fn distance(&self, end: &Self::Checkpoint) -> (r: usize)
        requires Self::cp(*end) <= self.at(),
        ensures r == self.at() - Self::cp(*end);
}
#[verifier::external_body]
pub fn unreached<T>() -> (r: T)
    requires false,
{ unimplemented!() }

//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
//@ item src/error.rs pub enum Commit<T>
//@ subst pub enum => #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] pub enum
//@ end
}
//@ item src/error.rs macro_rules! ctry
//@ subst \$crate::error::(\w) => \1
//@ subst err\.into\(\) => err
//@ end
verus! {
impl<T, E> ParseResult<T, E> {
    //@ fn src/error.rs | impl<T, E> ParseResult<T, E> | is_ok
    //@ contract
        ensures r == (self is CommitOk || self is PeekOk),
    //@ end
}
/// ResultExt::committed
#[verifier::external_body]
pub fn committed_<T, E>(x: Result<T, E>) -> (r: ParseResult<T, E>)
    ensures r == (match x { Ok(t) => CommitOk(t), Err(e) => CommitErr(e) }),
{ unimplemented!() }
pub open spec fn ok<O, E>(r: ParseResult<O, E>) -> bool { r is CommitOk || r is PeekOk }
pub open spec fn output<O, E>(r: ParseResult<O, E>) -> O {
    match r { CommitOk(o) => o, PeekOk(o) => o, _ => arbitrary() }
}

//@ fn src/stream/mod.rs | | wrap_stream_error
//@ subst <Input::Error as ParseError<.*?>>::StreamError => StreamErrorFor<Input>
//@ subst Input: \?Sized \+ StreamOnce \+ Positioned => Input: Stream
//@ subst err\.into\(\) => Tracked::from(err)
//@ contract
    ensures
        input.partial() ==> r is CommitErr,
        !input.partial() ==> r is PeekErr,
//@ end
//@ fn src/stream/mod.rs | | uncons_range
//@ subst <Input as StreamOnce>::Error => Input::Error
//@ subst Input: \?Sized \+ RangeStream => Input: RangeStream
//@ contract
    ensures
        kept(*old(input), *final(input)),
        ok(r) == fits(*old(input), old(input).at(), size as int),
        match r {
            CommitOk(x) => size > 0 && final(input).at() == old(input).at() + size && x.units() == part(*old(input), old(input).at(), size as int),
            PeekOk(x) => size == 0 && final(input).at() == old(input).at() && x.units() == part(*old(input), old(input).at(), 0),
            CommitErr(_) => old(input).partial() && final(input).at() == old(input).at(),
            PeekErr(_) => !old(input).partial() && final(input).at() == old(input).at(),
        },
//@ end

/// What is looked for is not at any place from a up to (not including) b
pub open spec fn nowhere<S: StreamOnce>(s: S, what: Seq<<S::Range as Range>::Unit>, a: int, b: int) -> bool {
    forall|i: int| #![trigger fits(s, i, what.len() as int)] a <= i < b && fits(s, i, what.len() as int) ==> part(s, i, what.len() as int) != what
}
/// Nor will it be there when more input arrives: as much as would be needed has been seen already
pub open spec fn never<S: StreamOnce>(s: S, what: Seq<<S::Range as Range>::Unit>, a: int, b: int) -> bool {
    nowhere(s, what, a, b) && forall|i: int| #![trigger s.between().contains(i)] a <= i < b && s.between().contains(i) ==> fits(s, i, what.len() as int)
}

//@ item src/parser/range.rs pub struct TakeUntilRange<Input>
//@ subst Input::Range\) => pub Input::Range)
//@ end
impl<Input: RangeStream> TakeUntilRange<Input> {
    //@ fn src/parser/range.rs | impl<Input> Parser<Input> for TakeUntilRange<Input> | parse_partial
    //@ subst Self::PartialState => usize
    //@ subst Self::Output => Input::Range
    //@ subst <Input as StreamOnce>::Error => Input::Error
    //@ subst use crate::stream::Range; => ;
    //@ subst xs == self\.0 => same(&xs, &self.0)
    //@ subst (?#opt)input\.reset\((\w+)\)\.committed\(\) => committed_(input.reset(\1))
    //@ subst input\.uncons\(\)\.is_err\(\) => { proof { input.inside(); if self.0.units().len() == 0 { assert(part(*old(input), input.at(), 0) =~= self.0.units()); } } let e = input.uncons().is_err(); proof { input.inside(); } e }
    //@ subst unreachable!\(\) => return unreached()
    //@ subst let before = input.checkpoint\(\); => let before = input.checkpoint(); proof { input.inside(); }
    //@ subst let look_ahead_input = input.checkpoint\(\); => let look_ahead_input = input.checkpoint(); proof { input.inside(); assert(fits(*input, input.at(), len as int) || !fits(*input, input.at(), len as int)); }
    //@ attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        requires
            // The state is a fresh one or was left by the last run at this place
            fits(*old(input), old(input).at(), *old(to_consume) as int),
            old(self).0.units().len() + old(input).units().len() <= usize::MAX,
        ensures
            kept(*old(input), *final(input)),
            *final(self) == *old(self),
            ({
                let (from, to, tc) = (old(input).at(), final(input).at(), *old(to_consume) as int);
                let (s, what) = (*old(input), old(self).0.units());
                &&& ok(r) && s.resets() ==> {
                    // What lies before the first place where the range is, and nothing else
                    &&& from + tc <= to && fits(s, to, what.len() as int) && part(s, to, what.len() as int) == what
                    &&& nowhere(s, what, from + tc, to)
                    &&& output(r).units() == part(s, from, to - from)
                    &&& r is CommitOk == (to > from)
                    &&& *final(to_consume) == 0
                }
                &&& !ok(r) && s.resets() ==> {
                    // It is nowhere; the next run starts where it could still come to be
                    &&& to == from && nowhere(s, what, from + tc, s.units().len() as int + 1)
                    &&& r is CommitErr == s.partial()
                    &&& tc <= *final(to_consume) && fits(s, from, *final(to_consume) as int)
                    &&& never(s, what, from + tc, from + *final(to_consume))
                }
            }),
    //@ loop 0
            invariant
                kept(*old(input), *input), *self == *old(self),
                *to_consume == *old(to_consume), len == self.0.units().len(), Input::cp(before) == old(input).at(),
                old(input).at() + *old(to_consume) <= input.at() <= input.units().len(),
                old(input).between().contains(input.at()),
                nowhere(*old(input), self.0.units(), old(input).at() + *old(to_consume), input.at()),
                match first_stream_error {
                    Some((_, d)) => *old(to_consume) <= d && fits(*old(input), old(input).at(), d as int)
                        && never(*old(input), self.0.units(), old(input).at() + *old(to_consume), old(input).at() + d),
                    None => never(*old(input), self.0.units(), old(input).at() + *old(to_consume), input.at()),
                },
    //@ end
}

//@ item src/parser/range.rs pub enum TakeRange
pub trait ParseMode: Copy {
    spec fn first(self) -> bool;
    fn is_first(self) -> (r: bool)
        ensures r == self.first();
}
//@ assume the function given to take_fn records what it is given and answers with a place inside it, or none
pub trait Search<R: Range>: Sized {
    spec fn asked(&self) -> Seq<(Seq<R::Unit>, TakeRange)>;
    fn search(&mut self, range: R) -> (r: TakeRange)
        ensures final(self).asked() == old(self).asked().push((range.units(), r)),
            r is Found ==> r->Found_0 <= range.units().len();
}
//@ item src/parser/range.rs pub struct TakeFn<F, Input>
//@ subst TakeFn<F, Input> => TakeFn<F>
//@ subst searcher: F => pub searcher: F
//@ subst _marker: PhantomData<fn\(Input\)>, => // no marker
//@ end
impl<F> TakeFn<F> {
    //@ fn src/parser/range.rs | impl<Input, F, R> Parser<Input> for TakeFn<F, Input> | parse_mode
    //@ subst fn parse_mode<M> => fn parse_mode<M, Input: RangeStream>
    //@ subst where\s*M: ParseMode, => where M: ParseMode, F: Search<Input::Range>,
    //@ subst Self::PartialState => usize
    //@ subst Self::Output => Input::Range
    //@ subst <Input as StreamOnce>::Error => Input::Error
    //@ subst \(self\.searcher\)\(input\.range\(\)\)\.into\(\) => self.searcher.search(input.range())
    //@ subst (?#opt)input\.reset\((\w+)\)\.committed\(\) => committed_(input.reset(\1))
    //@ subst StreamError::end_of_input => <StreamErrorFor<Input> as StreamError>::end_of_input
    //@ subst err\.into\(\) => Tracked::from(err)
    //@ subst let checkpoint = input.checkpoint\(\); => let checkpoint = input.checkpoint(); proof { input.inside(); }
    //@ contract
        ensures
            kept(*old(input), *final(input)),
            ({
                let (from, to) = (old(input).at(), final(input).at());
                let s = *old(input);
                // Where the search starts: behind what has been searched before, if that is a place between tokens
                let skip = if mode.first() || !fits(s, from, *old(offset) as int) { 0 } else { *old(offset) as int };
                let n = old(self).searcher.asked().len() as int;
                let answer = final(self).searcher.asked()[n].1;
                // The rest of the input is searched, once
                &&& final(self).searcher.asked() == old(self).searcher.asked().push((s.units().skip(from + skip), answer))
                &&& s.resets() ==> match answer {
                    TakeRange::Found(i) => {
                        &&& ok(r) == fits(s, from, skip + i)
                        &&& ok(r) ==> to == from + skip + i && output(r).units() == part(s, from, skip + i) && *final(offset) == 0
                            && r is CommitOk == (to > from)
                        &&& !ok(r) ==> to == from && r is CommitErr == s.partial()
                    }
                    TakeRange::NotFound(k) => !ok(r) && to == from && *final(offset) == k
                        && r is PeekErr == (!s.partial() && from == s.units().len()),
                }
            }),
    //@ end
}
}
fn main() {}
