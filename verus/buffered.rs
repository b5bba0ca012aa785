// C12: src/stream/buffered.rs against the contract of a stream in memory.
use vstd::prelude::*;
verus! {
//@ assume std::collections::VecDeque keeps the contract of the stand-in below
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@.len() == 0, r.room() >= n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r == self.room(), r >= self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r <= self.room(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[0]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[self@.len() - 1]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures i >= self@.len() ==> r is None, i < self@.len() ==> r == Some(&self@[i as int]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            final(self).room() == old(self).room(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T)
        ensures
            final(self)@ == old(self)@.push(t),
            final(self).room() >= final(self)@.len(),
            old(self)@.len() < old(self).room() ==> final(self).room() == old(self).room(),
    { unimplemented!() }
}
impl<T> core::ops::Index<usize> for VecDeque<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T)
        ensures *r == self@[i as int],
    { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for VecDeque<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}

//@ assume Clone returns an equal value for tokens and positions
pub axiom fn clone_is_equal<T: Clone>()
    ensures forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b;

pub trait StreamError: Sized {
    fn message_static_message(m: &'static str) -> Self;
}
pub trait ParseError<Position>: Sized {
    type StreamError: StreamError;
    fn from_error(position: Position, err: Self::StreamError) -> Self;
}
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Position>>::StreamError;

/// The contract of a stream: it stands at place `at` of a fixed sequence of tokens.
pub trait StreamOnce: Sized {
    type Token: Clone;
    type Range: Clone;
    type Position: Clone;
    type Error: ParseError<Self::Position>;
    spec fn wf(&self) -> bool;
    spec fn tokens(&self) -> Seq<Self::Token>;
    spec fn at(&self) -> int;
    /// The position reported in front of token i
    spec fn place(&self, i: int) -> Self::Position;
    spec fn partial(&self) -> bool;
    fn uncons(&mut self) -> (r: Result<Self::Token, StreamErrorFor<Self>>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).tokens() == old(self).tokens(),
            forall|i: int| final(self).place(i) == old(self).place(i),
            final(self).partial() == old(self).partial(),
            match r {
                Ok(t) => 0 <= old(self).at() < old(self).tokens().len() && t == old(self).tokens()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                Err(_) => final(self).at() == old(self).at(),
            };
    fn is_partial(&self) -> (r: bool)
        requires self.wf(),
        ensures r == self.partial();
}
pub trait ResetStream: StreamOnce {
    type Checkpoint: Clone;
    /// The place a checkpoint stands for
    spec fn cp(c: Self::Checkpoint) -> int;
    /// The stream has been at place i
    spec fn been(&self, i: int) -> bool;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        requires self.wf(),
        ensures Self::cp(r) == self.at(), self.been(self.at());
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        requires old(self).wf(), old(self).been(Self::cp(checkpoint)),
        ensures
            final(self).wf(),
            final(self).tokens() == old(self).tokens(),
            forall|i: int| final(self).place(i) == old(self).place(i),
            forall|i: int| final(self).been(i) == old(self).been(i),
            final(self).partial() == old(self).partial(),
            final(self).at() == if r is Ok { Self::cp(checkpoint) } else { old(self).at() };
}
pub trait Positioned: StreamOnce {
    fn position(&self) -> (r: Self::Position)
        requires self.wf(),
        ensures r == self.place(self.at());
}

//@ item src/stream/buffered.rs pub struct Stream<Input>

impl<Input> Stream<Input> where Input: StreamOnce + Positioned {
    /// The buffer holds the last tokens read from the source, with their positions.
    pub closed spec fn inv(&self) -> bool {
        &&& self.iter.wf()
        &&& self.iter.at() == self.buffer_offset
        &&& self.buffer_offset <= self.iter.tokens().len() <= usize::MAX
        &&& self.buffer@.len() <= self.buffer_offset
        &&& self.buffer@.len() >= self.buffer_offset || self.buffer@.len() >= self.buffer.room()
        &&& self.buffer_offset > 0 ==> self.buffer.room() > 0
        &&& self.buffer_offset - self.buffer@.len() <= self.offset <= self.buffer_offset
        &&& forall|i: int| 0 <= i < self.buffer@.len() ==> {
            &&& (#[trigger] self.buffer@[i]).0 == self.iter.tokens()[self.buffer_offset - self.buffer@.len() + i]
            &&& self.buffer@[i].1 == self.iter.place(self.buffer_offset - self.buffer@.len() + i)
        }
    }
    /// How many tokens can be read again at least.
    pub closed spec fn keeps(&self) -> int { self.buffer.room() as int }
    pub closed spec fn read(&self) -> int { self.buffer_offset as int }
}

impl<Input> StreamOnce for Stream<Input> where Input: StreamOnce + Positioned, Input::Token: Clone {
    type Token = Input::Token;
    type Range = Input::Range;
    type Position = Input::Position;
    type Error = Input::Error;
    closed spec fn wf(&self) -> bool { self.inv() }
    closed spec fn tokens(&self) -> Seq<Self::Token> { self.iter.tokens() }
    closed spec fn at(&self) -> int { self.offset as int }
    closed spec fn place(&self, i: int) -> Self::Position { self.iter.place(i) }
    closed spec fn partial(&self) -> bool { self.iter.partial() }

    //@ fn src/stream/buffered.rs | impl<Input> StreamOnce for Stream<Input> | uncons
    //@ contract a token that has been read before is given again
        ensures old(self).at() < old(self).read() ==> r is Ok,
            final(self).keeps() >= old(self).keeps(),
            final(self).read() == if old(self).at() < old(self).read() || r is Err { old(self).read() } else { old(self).read() + 1 },
    //@ start
        proof { clone_is_equal::<Input::Token>(); }
    //@ end

    //@ fn src/stream/buffered.rs | impl<Input> StreamOnce for Stream<Input> | is_partial
    //@ end
}

impl<Input> ResetStream for Stream<Input> where Input: Positioned, Input::Token: Clone {
    type Checkpoint = usize;
    closed spec fn cp(c: usize) -> int { c as int }
    closed spec fn been(&self, i: int) -> bool { 0 <= i <= self.buffer_offset }

    //@ fn src/stream/buffered.rs | impl<Input> ResetStream for Stream<Input> | checkpoint
    //@ end

    //@ fn src/stream/buffered.rs | impl<Input> ResetStream for Stream<Input> | reset
    //@ contract a reset to at most keeps() tokens back succeeds
        ensures old(self).read() - Self::cp(checkpoint) <= old(self).keeps() ==> r is Ok,
            final(self).read() == old(self).read(),
            final(self).keeps() == old(self).keeps(),
    //@ end
}

impl<Input> Positioned for Stream<Input> where Input: StreamOnce + Positioned {
    //@ fn src/stream/buffered.rs | impl<Input> Positioned for Stream<Input> | position
    //@ start
        proof { clone_is_equal::<Input::Position>(); }
    //@ end
}

impl<Input> Stream<Input> where Input: StreamOnce + Positioned, Input::Position: Clone, Input::Token: Clone {
    //@ fn src/stream/buffered.rs | impl<Input> Stream<Input> | new
    //@ contract a new stream keeps as many tokens as asked for
        requires iter.wf(), iter.at() == 0, iter.tokens().len() <= usize::MAX,
        ensures r.wf(), r.tokens() == iter.tokens(), r.at() == 0, r.read() == 0, r.keeps() >= lookahead,
            forall|i: int| r.place(i) == iter.place(i), r.partial() == iter.partial(),
    //@ end
}
fn main() {}
}
