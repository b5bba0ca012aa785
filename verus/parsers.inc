use vstd::prelude::*;
verus! {
//@ assume mem::take leaves the default value and gives what was there
pub trait Default: Sized {
    spec fn is_default(x: Self) -> bool;
    fn default() -> (r: Self)
        ensures Self::is_default(r);
}
impl Default for bool {
    open spec fn is_default(x: bool) -> bool { !x }
    fn default() -> (r: bool) { false }
}
pub mod mem {
    use super::*;
    #[verifier::external_body]
    pub fn take<T: Default>(dest: &mut T) -> (r: T)
        ensures r == *old(dest), T::is_default(*final(dest)),
    { unimplemented!() }
}

pub trait StreamError: Sized {
    fn message_static_message(m: &'static str) -> Self;
}
pub trait ParseError<Position>: Sized {
    type StreamError: StreamError;
    fn from_error(position: Position, err: Self::StreamError) -> Self;
    fn merge(self, other: Self) -> Self;
    fn add(&mut self, err: Self::StreamError);
}

/// The contract of a stream: it stands somewhere, and can be put back to where it was.
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Position>>::StreamError;
pub trait StreamOnce: Sized {
    type Token;
    type Position;
    type Error: ParseError<Self::Position>;
    spec fn tokens(&self) -> Seq<Self::Token>;
    spec fn at(&self) -> int;
    /// No token can be read now: the input or the chunk ends here, or reading fails
    spec fn stuck(&self) -> bool;
    fn position(&self) -> Self::Position;
    fn uncons(&mut self) -> (r: Result<Self::Token, StreamErrorFor<Self>>)
        ensures
            final(self).tokens() == old(self).tokens(),
            match r {
                Ok(t) => 0 <= old(self).at() < old(self).tokens().len() && t == old(self).tokens()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                Err(_) => final(self).at() == old(self).at() && old(self).stuck(),
            };
}
pub trait Stream: StreamOnce {
    type Checkpoint: Clone;
    spec fn cp(c: Self::Checkpoint) -> int;
    fn is_partial(&self) -> bool;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        ensures Self::cp(r) == self.at();
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        ensures final(self).tokens() == old(self).tokens(), r is Ok ==> final(self).at() == Self::cp(checkpoint);
}

//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
impl<T, E> ParseResult<T, E> {
    //@ fn src/error.rs | impl<T, E> ParseResult<T, E> | is_ok
    //@ contract
        ensures r == (self is CommitOk || self is PeekOk),
    //@ end
}

impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
//@ item src/error.rs pub enum Commit<T>
//@ subst pub enum => #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] pub enum
//@ end
impl<T> Commit<T> {
    //@ fn src/error.rs | impl<T> Commit<T> { | is_peek
    //@ contract
        ensures r == (self is Peek),
    //@ end
}
}
//@ item src/error.rs macro_rules! ctry
//@ subst \$crate::error::(\w) => \1
//@ subst err\.into\(\) => err
//@ end
verus! {

pub trait ParseMode: Copy {
    spec fn first(self) -> bool;
    fn is_first(self) -> (r: bool)
        ensures r == self.first();
    fn set_first(&mut self)
        ensures final(self).first();
}

//@ assume Parser::parse_partial is parse_mode in PartialMode::default()
/// One run of a parser: from where to where, whether it started afresh, and its result.
#[verifier::ext_equal]
pub ghost struct Run<O, E, S> {
    pub from: int,
    pub to: int,
    pub first: bool,
    pub result: ParseResult<O, E>,
    pub state_in: S,
    pub state_out: S,
}
pub type Runs<Input, P> = Seq<Run<<P as Parser<Input>>::Output, <Input as StreamOnce>::Error, <P as Parser<Input>>::PartialState>>;

/// The contract of a parser: every run is added to its history.
pub trait Parser<Input: Stream>: Sized {
    type Output;
    type PartialState;
    spec fn runs(&self) -> Runs<Input, Self>;
    /// What a parser made of others keeps about them
    spec fn wf(&self) -> bool;
    /// What it borrowed for its whole life
    type Lends;
    #[verifier::prophetic]
    spec fn lends(&self) -> Self::Lends;
    fn parse_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>)
        requires old(self).wf(),
        ensures final(input).tokens() == old(input).tokens(), final(self).wf(), final(self).lends() == old(self).lends(),
            final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: mode.first(), result: r, state_in: *old(state), state_out: *final(state),
        });
    #[verifier::external_body]
    fn parse_committed_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>)
        requires old(self).wf(),
        ensures final(input).tokens() == old(input).tokens(), final(self).wf(), final(self).lends() == old(self).lends(),
            final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: mode.first(), result: r, state_in: *old(state), state_out: *final(state),
        })
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_lazy(&mut self, input: &mut Input) -> (r: ParseResult<Self::Output, Input::Error>)
        requires old(self).wf(),
        ensures final(input).tokens() == old(input).tokens(), final(self).wf(), final(self).lends() == old(self).lends(),
            final(self).runs().len() > 0 && final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: true, result: r, state_in: final(self).runs().last().state_in, state_out: final(self).runs().last().state_out,
        })
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_partial(&mut self, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>)
        requires old(self).wf(),
        ensures final(input).tokens() == old(input).tokens(), final(self).wf(), final(self).lends() == old(self).lends(),
            final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: false, result: r, state_in: *old(state), state_out: *final(state),
        })
    { unimplemented!() }
}

//@ item src/parser/repeat.rs pub struct Iter<'a, Input, P, S, M>
//@ subst parser: P => parser: &'a mut P
//@ subst partial_state: S => partial_state: &'a mut P::PartialState
//@ subst <'a, Input, P, S, M> => <'a, Input, P, M>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ end
//@ item src/parser/repeat.rs enum State<E>
//@ subst enum => pub enum
//@ end

pub open spec fn ok<O, E>(r: ParseResult<O, E>) -> bool { r is CommitOk || r is PeekOk }
pub open spec fn output<O, E>(r: ParseResult<O, E>) -> O {
    match r { CommitOk(o) => o, PeekOk(o) => o, _ => arbitrary() }
}


/// The contract of an iterator: next goes from one state to the next one.
pub trait Iterator: Sized {
    type Item;
    #[verifier::prophetic]
    spec fn step(a: Self, b: Self, r: Option<Self::Item>) -> bool;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(), Self::step(*old(self), *final(self), r);
}
impl<'a, Input: Stream, P: Parser<Input>, M: ParseMode> Iterator for Iter<'a, Input, P, M> {
    type Item = P::Output;
    open spec fn wf(&self) -> bool { self.parser.wf() }
    #[verifier::prophetic]
    open spec fn step(a: Self, b: Self, r: Option<P::Output>) -> bool {
        let n = a.parser.runs().len() as int;
        let run = b.parser.runs()[n];
        &&& b.parser.runs() == a.parser.runs().push(run)
        &&& run.from == a.input.at() && run.first == a.mode.first()
        &&& run.state_in == *a.partial_state && run.state_out == *b.partial_state
        &&& r is Some <==> ok(run.result)
        &&& r is Some ==> r == Some(output(run.result)) && b.state == a.state && b.mode.first()
            && b.input.at() == run.to
        &&& run.result is CommitErr ==> b.state == State::CommitErr(run.result->CommitErr_0) && b.input.at() == run.to
        &&& run.result is PeekErr ==> b.state == State::PeekErr(run.result->PeekErr_0.error) && b.input.at() == run.from
            || b.state is CommitErr
        &&& b.committed == (a.committed || run.result is CommitOk)
        &&& b.input.tokens() == a.input.tokens() && b.parser.lends() == a.parser.lends()
        &&& *final(b.parser) == *final(a.parser)
        &&& *final(b.input) == *final(a.input)
        &&& *final(b.partial_state) == *final(a.partial_state)
    }
    //@ fn src/parser/repeat.rs | impl<'a, Input, P, S, M> Iterator for Iter | next
    //@ subst self\s*\.partial_state\.borrow_mut\(\) => &mut *self.partial_state
    //@ end
}

impl<'a, Input: Stream, P: Parser<Input>, M: ParseMode> Iter<'a, Input, P, M> {
    //@ fn src/parser/repeat.rs | impl<'a, Input, P, S, M> Iter<'a, Input, P, S, M> | new
    //@ subst parser: P => parser: &'a mut P
    //@ subst partial_state: S => partial_state: &'a mut P::PartialState
    //@ contract
        ensures r.begun(*old(parser), *old(input), *old(partial_state), mode, false),
            *final(r.parser) == *final(parser), *final(r.input) == *final(input), *final(r.partial_state) == *final(partial_state),
    //@ end
    pub open spec fn begun(&self, parser: P, input: Input, partial_state: P::PartialState, mode: M, committed: bool) -> bool {
        &&& *self.parser == parser && *self.input == input && *self.partial_state == partial_state
        &&& self.mode == mode && self.committed == committed && self.state is Ok
    }

    //@ fn src/parser/repeat.rs | impl<'a, Input, P, S, M> Iter<'a, Input, P, S, M> | into_result_
    //@ contract
        ensures self.result(r, value), self.left(),
    //@ end
    //@ fn src/parser/repeat.rs | impl<'a, Input, P, S, M> Iter<'a, Input, P, S, M> | fail
    //@ subst err: <<Input as StreamOnce>::Error as ParseError<.*?>>::StreamError, => err: <<Input as StreamOnce>::Error as ParseError<Input::Position>>::StreamError,
    //@ subst err\.into\(\) => Tracked::from(err)
    //@ subst e\.into\(\) => Tracked::from(e)
    //@ contract
        ensures self.left(), self.failure(r),
    //@ end
    pub open spec fn failure<O>(self, r: ParseResult<O, Input::Error>) -> bool {
        if self.committed || self.state is CommitErr { r is CommitErr } else { r is PeekErr }
    }
    /// What the iterator borrowed stays as it is now
    #[verifier::prophetic]
    pub open spec fn left(self) -> bool {
        *final(self.parser) == *self.parser && *final(self.input) == *self.input && *final(self.partial_state) == *self.partial_state
    }
    pub open spec fn result<O>(self, r: ParseResult<O, Input::Error>, value: O) -> bool {
        match self.state {
            State::CommitErr(e) => r == ParseResult::<O, Input::Error>::CommitErr(e),
            _ => if self.committed { r == ParseResult::<O, Input::Error>::CommitOk(value) } else { r == ParseResult::<O, Input::Error>::PeekOk(value) },
        }
    }

    //@ fn src/parser/repeat.rs | impl<'a, Input, P, S, M> Iter<'a, Input, P, S, M> | into_result_fast
    //@ contract
        ensures self.result(r, *old(value)), self.left(),
            if ok(r) { O::is_default(*final(value)) } else { *final(value) == *old(value) },
    //@ end
}

//@ assume Extend::extend takes from the iterator until it gives None, adding each item behind what is there
pub trait Extend<A>: Sized {
    spec fn items(&self) -> Seq<A>;
    fn extend<I: Iterator<Item = A>>(&mut self, iter: &mut I)
        requires old(iter).wf(),
        ensures final(iter).wf(), exists|taken: Seq<A>| #[trigger] drained(*old(iter), *final(iter), taken) && final(self).items() == old(self).items() + taken;
}
/// next gave these items one after the other
#[verifier::prophetic]
pub open spec fn took<I: Iterator>(a: I, b: I, taken: Seq<I::Item>) -> bool
    decreases taken.len(),
{
    if taken.len() == 0 { a == b } else {
        exists|m: I| #[trigger] I::step(a, m, Some(taken[0])) && took(m, b, taken.drop_first())
    }
}
/// and then None
#[verifier::prophetic]
pub open spec fn drained<I: Iterator>(a: I, b: I, taken: Seq<I::Item>) -> bool {
    exists|m: I| #[trigger] took(a, m, taken) && I::step(m, b, None)
}

/// The history only grows.
pub open spec fn extends<R>(rs: Seq<R>, before: Seq<R>) -> bool {
    &&& before.len() <= rs.len()
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] rs[i] == before[i]
}
pub broadcast proof fn lemma_concat<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
/// Where run number i starts.
pub open spec fn place<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, i: int, from: int) -> int {
    if i == 0 { from } else { rs[n + i - 1].to }
}
/// In which state of the parser run number i starts.
pub open spec fn resumes<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, i: int, state: S) -> S {
    if i == 0 { state } else { rs[n + i - 1].state_out }
}
/// The runs from number n on: each starts where the one before stopped, and they succeed with these outputs.
pub open spec fn successes<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, from: int, first: bool, state: S, outs: Seq<O>) -> bool {
    &&& forall|i: int| 0 <= i < outs.len() ==> {
        &&& ok((#[trigger] rs[n + i]).result)
        &&& outs[i] == output(rs[n + i].result)
    }
    &&& forall|i: int| 0 <= i < rs.len() - n ==> {
        &&& (#[trigger] rs[n + i]).from == place(rs, n, i, from)
        &&& rs[n + i].first == (first || i > 0)
        &&& rs[n + i].state_in == resumes(rs, n, i, state)
    }
}
/// Successes, then a failure.
pub open spec fn repetition<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, from: int, first: bool, state: S, outs: Seq<O>) -> bool {
    &&& rs.len() == n + outs.len() + 1
    &&& successes(rs, n, from, first, state, outs)
    &&& !ok(rs.last().result)
}
pub open spec fn commits<O, E, S>(rs: Seq<Run<O, E, S>>, n: int) -> bool {
    exists|i: int| n <= i < rs.len() && (#[trigger] rs[i]).result is CommitOk
}

impl<'a, Input: Stream, P: Parser<Input>, M: ParseMode> Iter<'a, Input, P, M> {
    /// What holds once the iterator has given these items
    #[verifier::prophetic]
    pub open spec fn gave(a: Self, b: Self, taken: Seq<P::Output>) -> bool {
        let n = a.parser.runs().len() as int;
        let rs = b.parser.runs();
        &&& rs.len() == n + taken.len()
        &&& extends(rs, a.parser.runs())
        &&& successes(rs, n, a.input.at(), a.mode.first(), *a.partial_state, taken)
        &&& b.input.at() == place(rs, n, taken.len() as int, a.input.at())
        &&& *b.partial_state == resumes(rs, n, taken.len() as int, *a.partial_state)
        &&& b.mode.first() == (a.mode.first() || taken.len() > 0)
        &&& b.state == a.state
        &&& b.committed == (a.committed || commits(rs, n))
        &&& b.input.tokens() == a.input.tokens() && b.parser.lends() == a.parser.lends()
        &&& *final(b.parser) == *final(a.parser)
        &&& *final(b.input) == *final(a.input)
        &&& *final(b.partial_state) == *final(a.partial_state)
    }
    /// and None
    #[verifier::prophetic]
    pub open spec fn ran(a: Self, b: Self, taken: Seq<P::Output>) -> bool {
        let n = a.parser.runs().len() as int;
        let rs = b.parser.runs();
        let last = rs.last();
        &&& extends(rs, a.parser.runs())
        &&& repetition(rs, n, a.input.at(), a.mode.first(), *a.partial_state, taken)
        &&& *b.partial_state == last.state_out
        &&& last.result is CommitErr ==> b.state == State::CommitErr(last.result->CommitErr_0) && b.input.at() == last.to
        &&& last.result is PeekErr ==> b.state is PeekErr && b.input.at() == last.from || b.state is CommitErr
        &&& b.committed == (a.committed || commits(rs, n))
        &&& b.input.tokens() == a.input.tokens() && b.parser.lends() == a.parser.lends()
        &&& *final(b.parser) == *final(a.parser)
        &&& *final(b.input) == *final(a.input)
        &&& *final(b.partial_state) == *final(a.partial_state)
    }
}
pub broadcast proof fn lemma_took<'a, Input: Stream, P: Parser<Input>, M: ParseMode>(a: Iter<'a, Input, P, M>, b: Iter<'a, Input, P, M>, taken: Seq<P::Output>)
    requires #[trigger] took(a, b, taken),
    ensures Iter::<'a, Input, P, M>::gave(a, b, taken),
    decreases taken.len(),
{
    let n = a.parser.runs().len() as int;
    let rs = b.parser.runs();
    if taken.len() == 0 {
    } else {
        let m = choose|m: Iter<'a, Input, P, M>| #[trigger] Iter::<'a, Input, P, M>::step(a, m, Some(taken[0])) && took(m, b, taken.drop_first());
        let t = taken.drop_first();
        lemma_took(m, b, t);
        assert(m.parser.runs().len() == n + 1);
        assert(rs[n] == m.parser.runs()[n]);
        assert forall|i: int| 0 <= i < taken.len() implies {
            &&& ok((#[trigger] rs[n + i]).result)
            &&& taken[i] == output(rs[n + i].result)
        } by {
            if i > 0 {
                assert(rs[n + 1 + (i - 1)] == rs[n + i]);
                assert(t[i - 1] == taken[i]);
            }
        }
        assert forall|i: int| 0 <= i < rs.len() - n implies {
            &&& (#[trigger] rs[n + i]).from == place(rs, n, i, a.input.at())
            &&& rs[n + i].first == (a.mode.first() || i > 0)
            &&& rs[n + i].state_in == resumes(rs, n, i, *a.partial_state)
        } by {
            if i > 0 {
                assert(rs[n + 1 + (i - 1)] == rs[n + i]);
            }
        }
        assert(commits(rs, n) == (rs[n].result is CommitOk || commits(rs, n + 1)));
    }
}
pub broadcast proof fn lemma_drained<'a, Input: Stream, P: Parser<Input>, M: ParseMode>(a: Iter<'a, Input, P, M>, b: Iter<'a, Input, P, M>, taken: Seq<P::Output>)
    requires #[trigger] drained(a, b, taken),
    ensures Iter::<'a, Input, P, M>::ran(a, b, taken),
{
    let m = choose|m: Iter<'a, Input, P, M>| #[trigger] took(a, m, taken) && Iter::<'a, Input, P, M>::step(m, b, None);
    lemma_took(a, m, taken);
    lemma_stop(a, m, b, taken);
}
proof fn lemma_stop<'a, Input: Stream, P: Parser<Input>, M: ParseMode>(a: Iter<'a, Input, P, M>, m: Iter<'a, Input, P, M>, b: Iter<'a, Input, P, M>, taken: Seq<P::Output>)
    requires Iter::<'a, Input, P, M>::gave(a, m, taken), Iter::<'a, Input, P, M>::step(m, b, None),
    ensures Iter::<'a, Input, P, M>::ran(a, b, taken),
{
    let n = a.parser.runs().len() as int;
    let rs = b.parser.runs();
    let ms = m.parser.runs();
    assert(rs == ms.push(rs.last()));
    assert forall|i: int| 0 <= i < taken.len() implies {
        &&& ok((#[trigger] rs[n + i]).result)
        &&& taken[i] == output(rs[n + i].result)
    } by {
        assert(rs[n + i] == ms[n + i]);
    }
    assert forall|i: int| 0 <= i < rs.len() - n implies {
        &&& (#[trigger] rs[n + i]).from == place(rs, n, i, a.input.at())
        &&& rs[n + i].first == (a.mode.first() || i > 0)
        &&& rs[n + i].state_in == resumes(rs, n, i, *a.partial_state)
    } by {
        if i < ms.len() - n { assert(rs[n + i] == ms[n + i]); }
        if i > 0 { assert(rs[n + i - 1] == ms[n + i - 1]); }
    }
    assert(commits(rs, n) == commits(ms, n)) by {
        if commits(ms, n) {
            let i = choose|i: int| n <= i < ms.len() && (#[trigger] ms[i]).result is CommitOk;
            assert(rs[i].result is CommitOk);
        }
        if commits(rs, n) {
            let i = choose|i: int| n <= i < rs.len() && (#[trigger] rs[i]).result is CommitOk;
            assert(ms[i].result is CommitOk);
        }
    }
}

//@ assume Option gives its value once
impl<T> Iterator for Option<T> {
    type Item = T;
    open spec fn wf(&self) -> bool { true }
    open spec fn step(a: Self, b: Self, r: Option<T>) -> bool { r == a && b is None }
    fn next(&mut self) -> (r: Option<T>) { self.take() }
}
pub broadcast proof fn lemma_option<T>(a: Option<T>, b: Option<T>, taken: Seq<T>)
    requires #[trigger] drained(a, b, taken),
    ensures taken == if a is Some { seq![a->0] } else { seq![] },
{
    let m = choose|m: Option<T>| #[trigger] took(a, m, taken) && Option::<T>::step(m, b, None);
    if taken.len() > 0 {
        let m1 = choose|m1: Option<T>| #[trigger] Option::<T>::step(a, m1, Some(taken[0])) && took(m1, m, taken.drop_first());
        let t = taken.drop_first();
        if t.len() > 0 {
            let m2 = choose|m2: Option<T>| #[trigger] Option::<T>::step(m1, m2, Some(t[0])) && took(m2, m, t.drop_first());
        }
        assert(t.len() == 0);
        assert(taken =~= seq![a->0]);
    } else {
        assert(taken =~= seq![]);
    }
}

