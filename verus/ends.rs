// C07: src/stream/mod.rs, where the input or the chunk ends
use vstd::prelude::*;
verus! {
pub trait StreamError: Sized {
    spec fn is_end(&self) -> bool;
    fn is_unexpected_end_of_input(&self) -> (r: bool)
        ensures r == self.is_end();
    fn end_of_input() -> (r: Self)
        ensures r.is_end();
}
pub trait ParseError<Position>: Sized {
    type StreamError: StreamError;
    fn empty(position: Position) -> Self;
    /// What it says when it is made of this
    spec fn says(&self, err: Self::StreamError) -> bool;
    fn from_error(position: Position, err: Self::StreamError) -> (r: Self)
        ensures r.says(err);
}
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Position>>::StreamError;
//@ assume a stream gives the end-of-input error exactly where no token is left, and can be put back by a token
pub trait StreamOnce: Sized {
    type Token;
    type Range;
    type Position;
    type Error: ParseError<Self::Position>;
    spec fn tokens(&self) -> Seq<Self::Token>;
    spec fn at(&self) -> int;
    /// Is there more behind what is here?
    spec fn partial(&self) -> bool;
    fn is_partial(&self) -> (r: bool)
        ensures r == self.partial();
    fn position(&self) -> Self::Position;
    fn uncons(&mut self) -> (r: Result<Self::Token, StreamErrorFor<Self>>)
        ensures
            final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(),
            match r {
                Ok(t) => 0 <= old(self).at() < old(self).tokens().len() && t == old(self).tokens()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                Err(e) => final(self).at() == old(self).at() && (e.is_end() <==> old(self).ended()),
            };
    spec fn ended(&self) -> bool;
    proof fn end(&self)
        ensures self.ended() == (self.at() == self.tokens().len()), 0 <= self.at() <= self.tokens().len();
}
pub trait Stream: StreamOnce {
    type Checkpoint;
    spec fn cp(c: Self::Checkpoint) -> int;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        ensures Self::cp(r) == self.at();
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        ensures final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(),
            r is Ok ==> final(self).at() == Self::cp(checkpoint), old(self).at() - 1 <= Self::cp(checkpoint) <= old(self).at() ==> r is Ok;
}
pub trait Range: Sized {
    spec fn units(&self) -> nat;
    fn len(&self) -> (r: usize)
        ensures r == self.units();
}
pub trait RangeStream: Stream {
    fn uncons_range(&mut self, size: usize) -> (r: Result<Self::Range, StreamErrorFor<Self>>)
        ensures final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(),
            r is Err ==> final(self).at() == old(self).at();
    fn uncons_while<F>(&mut self, f: F) -> (r: Result<Self::Range, StreamErrorFor<Self>>)
        ensures final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(), final(self).at() <= final(self).tokens().len();
    fn uncons_while1<F>(&mut self, f: F) -> (r: ParseResult<Self::Range, StreamErrorFor<Self>>)
        ensures final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(), !(r is PeekOk), final(self).at() <= final(self).tokens().len();
}
#[verifier::external_body]
pub fn unreached<T>() -> (r: T)
    requires false,
{ unimplemented!() }

//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
pub open spec fn ok<O, E>(r: ParseResult<O, E>) -> bool { r is CommitOk || r is PeekOk }

//@ fn src/stream/mod.rs | | wrap_stream_error
//@ subst <Input::Error as ParseError<.*?>>::StreamError => StreamErrorFor<Input>
//@ subst Input: \?Sized \+ StreamOnce \+ Positioned => Input: Stream
//@ subst err\.into\(\) => Tracked::from(err)
//@ contract
    ensures
        input.partial() ==> r is CommitErr && r->CommitErr_0.says(err),
        !input.partial() ==> r is PeekErr && r->PeekErr_0.error.says(err),
//@ end
//@ fn src/stream/mod.rs | | input_at_eof
//@ subst Input: \?Sized \+ Stream => Input: Stream
//@ subst input\s*\.uncons\(\)\s*\.err\(\)\s*\.map_or\(false, \|err\| (err\.is_unexpected_end_of_input\(\))\) => match input.uncons() { Ok(_) => false, Err(err) => \1 }
//@ contract
    ensures final(input).tokens() == old(input).tokens(), final(input).partial() == old(input).partial(),
        r == (old(input).at() == old(input).tokens().len()),
        final(input).at() == old(input).at(),
//@ start
    proof { input.end(); }
//@ end
//@ fn src/stream/mod.rs | | uncons
//@ subst Input: \?Sized \+ Stream => Input: Stream
//@ contract
    ensures
        final(input).tokens() == old(input).tokens(),
        match r {
            CommitOk(t) => t == old(input).tokens()[old(input).at()] && final(input).at() == old(input).at() + 1,
            CommitErr(_) => old(input).partial() && final(input).at() == old(input).at(),
            PeekErr(_) => !old(input).partial() && final(input).at() == old(input).at(),
            PeekOk(_) => false,
        },
//@ end
//@ fn src/stream/mod.rs | | uncons_range
//@ subst <Input as StreamOnce>::Error => Input::Error
//@ subst Input: \?Sized \+ RangeStream => Input: RangeStream
//@ contract
    ensures match r {
        CommitOk(_) => size > 0,
        PeekOk(_) => size == 0,
        CommitErr(_) => old(input).partial() && final(input).at() == old(input).at(),
        PeekErr(_) => !old(input).partial() && final(input).at() == old(input).at(),
    },
//@ end
//@ fn src/stream/mod.rs | | uncons_while
//@ subst F: FnMut\(Input::Token\) -> bool,\s*Input: \?Sized \+ RangeStream => Input: RangeStream
//@ contract
    ensures
        // What could go on behind the end of the chunk is not given out
        ok(r) && old(input).partial() ==> final(input).at() < final(input).tokens().len(),
        !old(input).partial() ==> !(r is CommitErr),
        old(input).partial() ==> !(r is PeekErr),
        r is PeekOk ==> r->PeekOk_0.units() == 0,
        r is CommitOk ==> r->CommitOk_0.units() > 0,
//@ start
    proof { input.end(); }
//@ end
//@ fn src/stream/mod.rs | | uncons_while1
//@ subst F: FnMut\(Input::Token\) -> bool,\s*Input: \?Sized \+ RangeStream => Input: RangeStream
//@ subst PeekErr\(Input::Error::empty\(input\.position\(\)\)\.into\(\)\) => PeekErr(Tracked::from(Input::Error::empty(input.position())))
//@ subst unreachable!\(\) => unreached()
//@ contract
    ensures
        // Neither is what could still begin there
        !(r is CommitErr) && old(input).partial() ==> final(input).at() < final(input).tokens().len(),
        !old(input).partial() ==> !(r is CommitErr),
        !(r is PeekOk),
//@ end
}
fn main() {}
