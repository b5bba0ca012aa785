// C02: src/parser/choice.rs, a choice among any number of parsers
use vstd::prelude::*;
verus! {
pub trait StreamError: Sized {
    fn message_static_message(m: &'static str) -> Self;
}
pub trait ParseError<Position>: Sized {
    type StreamError: StreamError;
    fn from_error(position: Position, err: Self::StreamError) -> (r: Self);
    fn merge(self, other: Self) -> Self;
}
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Position>>::StreamError;
pub trait StreamOnce: Sized {
    type Position;
    type Error: ParseError<Self::Position>;
    spec fn at(&self) -> int;
    spec fn place(&self) -> Self::Position;
    /// Resets never fail
    spec fn resets(&self) -> bool;
    fn position(&self) -> (r: Self::Position)
        ensures r == self.place();
}
//@ assume a reset that succeeds goes back to the checkpoint; positions are compared by value; slices are indexed as Rust does
#[verifier::external_body]
pub fn differ<P>(a: &P, b: &P) -> (r: bool)
    ensures r == (*a != *b),
{ unimplemented!() }
pub trait Stream: StreamOnce {
    type Checkpoint: Clone;
    spec fn cp(c: Self::Checkpoint) -> int;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        ensures Self::cp(r) == self.at();
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        ensures final(self).resets() == old(self).resets(), r is Ok ==> final(self).at() == Self::cp(checkpoint), old(self).resets() ==> r is Ok;
}
#[verifier::external_body]
pub fn copy<I: Stream>(c: &I::Checkpoint) -> (r: I::Checkpoint)
    ensures r == *c,
{ unimplemented!() }
pub trait Default: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self)
        ensures r.is_default();
}

//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
#[verifier::external_body]
pub fn same_offset(a: &ErrorOffset, b: &ErrorOffset) -> (r: bool)
    ensures r == (*a == *b),
{ unimplemented!() }
#[verifier::external_body]
pub fn offset_of(a: &ErrorOffset) -> (r: ErrorOffset)
    ensures r == *a,
{ unimplemented!() }
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
//@ item src/error.rs pub enum Commit<T>
//@ subst pub enum => #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] pub enum
//@ end
}
//@ item src/error.rs macro_rules! ctry
//@ subst \$crate::error::(\w) => \1
//@ subst err\.into\(\) => err
//@ end
verus! {
impl<T, E> ParseResult<T, E> {
    //@ fn src/error.rs | impl<T, E> ParseResult<T, E> | is_ok
    //@ contract
        ensures r == is_ok(self),
    //@ end
}
#[verifier::external_body]
pub fn committed_<T, E>(x: Result<T, E>) -> (r: ParseResult<T, E>)
    ensures r == (match x { Ok(t) => CommitOk(t), Err(e) => CommitErr(e) }),
{ unimplemented!() }
pub trait ParseMode: Copy {
    spec fn first(self) -> bool;
    fn is_first(self) -> (r: bool)
        ensures r == self.first();
}
//@ item src/parser/mod.rs pub struct FirstMode
//@ subst pub struct => #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] pub struct
//@ end
impl ParseMode for FirstMode {
    open spec fn first(self) -> bool { true }
    fn is_first(self) -> (r: bool) { true }
}
/// One run of a parser: from where, whether it started afresh, and its result.
pub ghost struct Run<O, E, S> {
    pub from: int,
    pub to: int,
    pub first: bool,
    pub result: ParseResult<O, E>,
    pub state_in: S,
    pub state_out: S,
}
//@ assume Parser::parse_partial is parse_mode in PartialMode::default(), and add_error does not run the parser
pub type RunOf<Input, P> = Run<<P as Parser<Input>>::Output, <Input as StreamOnce>::Error, <P as Parser<Input>>::PartialState>;
pub trait Parser<Input: Stream>: Sized {
    type Output;
    type PartialState: Default;
    spec fn runs(&self) -> Seq<RunOf<Input, Self>>;
    fn parse_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>)
        ensures final(input).resets() == old(input).resets(), final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: mode.first(), result: r, state_in: *old(state), state_out: *final(state),
        });
    fn parse_partial(&mut self, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>)
        ensures final(input).resets() == old(input).resets(), final(self).runs() == old(self).runs().push(Run {
            from: old(input).at(), to: final(input).at(), first: false, result: r, state_in: *old(state), state_out: *final(state),
        });
    fn add_error(&mut self, errors: &mut Tracked<Input::Error>)
        ensures final(self).runs() == old(self).runs();
}
/// A slice of parsers
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct Parsers<P> { p: Vec<P> }
impl<P> Parsers<P> {
    pub uninterp spec fn all(&self) -> Seq<P>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.all().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth<'a>(&'a mut self, i: usize) -> (r: &'a mut P)
        requires i < old(self).all().len(),
        ensures *r == old(self).all()[i as int], final(self).all() == old(self).all().update(i as int, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last<'a>(&'a mut self) -> (r: &'a mut P)
        requires old(self).all().len() > 0,
        ensures *r == old(self).all().last(), final(self).all() == old(self).all().update(old(self).all().len() - 1, *final(r)),
    { unimplemented!() }
}
/// The loop that calls add_error of the parsers a..b
#[verifier::external_body]
pub fn add_errors<Input: Stream, P: Parser<Input>>(ps: &mut Parsers<P>, a: usize, b: usize, errors: &mut Tracked<Input::Error>)
    requires a <= b <= old(ps).all().len(),
    ensures same_runs::<Input, P>(old(ps).all(), final(ps).all()),
{ unimplemented!() }
pub open spec fn same_runs<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).runs() == a[j].runs()
}
/// The first k parsers have been tried, once each, from this place, and failed without committing
pub open spec fn failed<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>, from: int, k: int) -> bool {
    &&& a.len() == b.len() && 0 <= k <= a.len()
    &&& forall|j: int| 0 <= j < k ==> {
        let n = a[j].runs().len() as int;
        let run = b[j].runs()[n];
        (#[trigger] b[j]).runs() == a[j].runs().push(run) && run.from == from && run.first && run.result is PeekErr
    }
}
/// and those behind them have not
pub open spec fn untouched<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>, k: int) -> bool {
    forall|j: int| k <= j < a.len() ==> (#[trigger] b[j]).runs() == a[j].runs()
}
pub open spec fn last_run<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>, k: int, run: RunOf<Input, P>) -> bool {
    b[k].runs() == a[k].runs().push(run)
}
pub open spec fn is_ok<T, E>(r: &ParseResult<T, E>) -> bool { r is CommitOk || r is PeekOk }

/// A suspended choice goes on with the parser it stopped in, and only with that one
pub open spec fn resumed<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>, from: int, before: (usize, P::PartialState), after: (usize, P::PartialState),
    r: ParseResult<P::Output, Input::Error>) -> bool {
    let k = before.0 - 1;
    let run = b[k].runs()[a[k].runs().len() as int];
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= j < a.len() && j != k ==> (#[trigger] b[j]).runs() == a[j].runs()
    &&& last_run::<Input, P>(a, b, k, run) && run.from == from && !run.first && run.state_in == before.1 && run.state_out == after.1
    &&& r == run.result && after.0 == (if is_ok(&r) { 0 } else { before.0 })
}
/// After k parsers that failed without committing, the next one decides; all of them start at the same place
pub open spec fn chosen<Input: Stream, P: Parser<Input>>(a: Seq<P>, b: Seq<P>, from: int, to: int, moved: bool, k: int, after: (usize, P::PartialState),
    r: ParseResult<P::Output, Input::Error>) -> bool {
    k < a.len() && {
        let run = b[k].runs()[a[k].runs().len() as int];
        &&& untouched::<Input, P>(a, b, k + 1)
        &&& last_run::<Input, P>(a, b, k, run) && run.from == from && run.first && run.to == to && r == run.result && !(r is PeekErr)
        &&& is_ok(&r) ==> after.0 == 0
        &&& r is CommitErr ==> if moved { after.0 == k + 1 && after.1 == run.state_out } else { after.0 == 0 && after.1.is_default() }
    }
}
//@ fn src/parser/choice.rs | | slice_parse_mode
//@ subst \[P\] => Parsers<P>
//@ subst <Input as StreamOnce>::Error => Input::Error
//@ subst (?#opt)StreamError::message => <StreamErrorFor<Input> as StreamError>::message
//@ subst let \(ref mut index_state, ref mut child_state\) = \*state; => let ghost from = input.at(); let ghost start = *state;
//@ subst return self_\[([^\]]*)\]\s*\.parse_partial\(input, child_state\)\s*\.map\(\|x\| \{(.*?)\n\s*x\s*\}\); => let x = self_.nth(\1).parse_partial(input, child_state); if x.is_ok() { \2 } proof { assert(same_runs::<Input, P>(old(self_).all().update(start.0 - 1, self_.all()[start.0 - 1]), self_.all())); } return x;
//@ subst (?#opt)\*child_state = => state.1 =
//@ subst \bchild_state\b => &mut state.1
//@ subst \*index_state\b => state.0
//@ subst (?#opt)Default::default => <P::PartialState as Default>::default
//@ subst (?#opt)crate::parser::FirstMode => FirstMode
//@ subst (?#opt)input\.position\(\) != before_position => differ(&input.position(), &before_position)
//@ subst (?#opt)input\.position\(\) == before_position => !differ(&input.position(), &before_position)
//@ subst (?#opt)input\.reset\(before\.clone\(\)\)\.committed\(\) => committed_(input.reset(copy::<Input>(&before)))
//@ subst prev_err\.offset != ErrorOffset\(1\) => !same_offset(&prev_err.offset, &ErrorOffset(1))
//@ subst for p in &mut self_\[(\w+)\.\.\((\w+ - 1)\)\] \{.*?add_error\(&mut prev_err\);\s*\} => add_errors::<Input, P>(self_, \1, \2, &mut prev_err);
//@ subst self_\[([^\]]*)\]\.add_error => self_.nth(\1).add_error
//@ subst self_\[([^\]]*)\]\.parse_mode => self_.nth(\1).parse_mode
//@ subst self_\.last_mut\(\)\.unwrap\(\) => self_.last()
//@ subst = prev_err\.offset; => = offset_of(&prev_err.offset);
//@ subst (Input::Error::from_error\(.*?\n\s*\))\s*\.into\(\) => Tracked::from(\1)
//@ subst committed_err @ CommitErr\(_\) => CommitErr(committed_err)
//@ subst return committed_err; => proof { assert(failed::<Input, P>(old(self_).all(), self_.all(), from, i as int)); } return CommitErr(committed_err);
//@ subst return ok; => proof { assert(failed::<Input, P>(old(self_).all(), self_.all(), from, i as int)); } return ok;
//@ attr
#[verifier::loop_isolation(false)]
//@ contract
    requires
        // The state is a fresh one or was left by the last run
        old(state).0 <= old(self_).all().len(),
    ensures
        final(self_).all().len() == old(self_).all().len(),
        !mode.first() && old(state).0 != 0 ==> resumed::<Input, P>(old(self_).all(), final(self_).all(), old(input).at(), *old(state), *final(state), r),
        (mode.first() || old(state).0 == 0) && old(input).resets() ==> if r is PeekErr {
            failed::<Input, P>(old(self_).all(), final(self_).all(), old(input).at(), old(self_).all().len() as int)
        } else {
            exists|k: int| #[trigger] failed::<Input, P>(old(self_).all(), final(self_).all(), old(input).at(), k)
                && chosen::<Input, P>(old(self_).all(), final(self_).all(), old(input).at(), final(input).at(), old(input).place() != final(input).place(), k, *final(state), r)
        },
//@ loop 0
        invariant
            self_.all().len() == old(self_).all().len(), Input::cp(before) == from, before_position == old(input).place(),
            input.resets() == old(input).resets(), mode.first() || start.0 == 0,
            last_parser_having_non_1_offset <= i, prev_err is Some ==> last_parser_having_non_1_offset <= i - 1, prev_err is Some == (i > 0),
            failed::<Input, P>(old(self_).all(), self_.all(), from, i as int),
            untouched::<Input, P>(old(self_).all(), self_.all(), i as int),
//@ end
}
fn main() {}
