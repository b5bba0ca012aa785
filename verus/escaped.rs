// C05: escaped
//@ include parsers.inc
pub trait ResultExt<E, T>: Sized {
    fn committed(self) -> ParseResult<E, T>;
}
impl<E, T> ResultExt<E, T> for Result<E, T> {
    //@ fn src/error.rs | impl<E, T> ResultExt<E, T> for Result<E, T> | committed
    //@ contract
        ensures r == match self { Ok(x) => ParseResult::<E, T>::CommitOk(x), Err(x) => ParseResult::<E, T>::CommitErr(x) },
    //@ end
}
#[verifier::external_body]
pub fn wrap_stream_error<T, Input: Stream>(input: &Input, err: StreamErrorFor<Input>) -> (r: ParseResult<T, Input::Error>)
    ensures !ok(r),
{ unimplemented!() }
//@ fn src/stream/mod.rs | | uncons
//@ subst Input: \?Sized \+ Stream => Input: Stream
//@ contract
    ensures
        final(input).tokens() == old(input).tokens(),
        r is CommitOk ==> old(input).tokens().len() > old(input).at() >= 0 && r->CommitOk_0 == old(input).tokens()[old(input).at()]
            && final(input).at() == old(input).at() + 1,
        !(r is CommitOk) ==> !ok(r) && final(input).at() == old(input).at() && old(input).stuck(),
//@ end
//@ item src/parser/mod.rs pub struct FirstMode
//@ subst pub struct => #[derive(Copy, Clone)] pub struct
//@ end
impl ParseMode for FirstMode {
    open spec fn first(self) -> bool { true }
    //@ fn src/parser/mod.rs | impl ParseMode for FirstMode | is_first
    //@ end
    //@ fn src/parser/mod.rs | impl ParseMode for FirstMode | set_first
    //@ end
}
#[verifier::external_body]
pub fn clone_checkpoint<Input: Stream>(c: &Input::Checkpoint) -> (r: Input::Checkpoint)
    ensures Input::cp(r) == Input::cp(*c),
{ unimplemented!() }
pub uninterp spec fn eq<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn equal<T>(a: &T, b: &T) -> (r: bool)
    ensures r == eq(*a, *b),
{ unimplemented!() }

/// An arm with an alternative in it cannot have a guard
pub fn yields<T, E>(x: &ParseResult<T, E>, t: &T) -> (r: bool)
    ensures r == (ok(*x) && eq(output(*x), *t)),
{
    match x {
        CommitOk(c) | PeekOk(c) => equal(c, t),
        _ => false,
    }
}
//@ item src/parser/repeat.rs pub struct EscapedState<T, U>
//@ subst PhantomData => core::marker::PhantomData
//@ end
//@ item src/parser/repeat.rs pub struct Escaped<P, Q, I>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ end
/// k times: a plain part, or, where there is none, the escape token and an escaped part.
/// Number i starts at at[i], with js[i] escaped parts before it.
pub open spec fn parts<T, O, O2, E, S, S2>(ps: Seq<Run<O, E, S>>, np: int, qs: Seq<Run<O2, E, S2>>, nq: int, tokens: Seq<T>, escape: T, at: Seq<int>, js: Seq<int>, k: int) -> bool {
    &&& at.len() == k + 1 && js.len() == k + 1 && js[0] == 0 && 0 <= js[k]
    &&& ps.len() >= np + k && qs.len() >= nq + js[k]
    &&& forall|n: int| np <= n < np + k ==> {
        let i = n - np;
        let p = #[trigger] ps[n];
        let q = qs[nq + js[i]];
        &&& p.from == at[i]
        &&& 0 <= js[i] <= js[k]
        &&& ok(p.result) ==> at[i + 1] == p.to && js[i + 1] == js[i]
        &&& !ok(p.result) ==> {
            &&& p.result is PeekErr && 0 <= at[i] < tokens.len() && eq(tokens[at[i]], escape)
            &&& q.from == at[i] + 1 && q.first && ok(q.result)
            &&& at[i + 1] == q.to && js[i + 1] == js[i] + 1 && js[i] < js[k]
        }
    }
}
/// Some of these parts consumed input: a plain part that says so, or an escape token
pub open spec fn consumed<O, E, S>(ps: Seq<Run<O, E, S>>, np: int, k: int) -> bool {
    exists|i: int| np <= i < np + k && !((#[trigger] ps[i]).result is PeekOk)
}
pub broadcast proof fn lemma_consumed<O, E, S>(rs: Seq<Run<O, E, S>>, r: Run<O, E, S>, np: int, k: int)
    requires 0 <= np <= rs.len(), 0 <= k <= rs.len() - np + 1,
    ensures #[trigger] consumed(rs.push(r), np, k) == if k == rs.len() - np + 1 { !(r.result is PeekOk) || consumed(rs, np, k - 1) } else { consumed(rs, np, k) },
{
    let all = rs.push(r);
    if k == rs.len() - np + 1 && !(r.result is PeekOk) { assert(!(all[rs.len() as int].result is PeekOk)); }
    if consumed(rs, np, k - 1) {
        let i = choose|i: int| np <= i < np + k - 1 && !((#[trigger] rs[i]).result is PeekOk);
        assert(!(all[i].result is PeekOk));
    }
    if k <= rs.len() - np && consumed(rs, np, k) {
        let i = choose|i: int| np <= i < np + k && !((#[trigger] rs[i]).result is PeekOk);
        assert(!(all[i].result is PeekOk));
    }
    if consumed(all, np, k) {
        let i = choose|i: int| np <= i < np + k && !((#[trigger] all[i]).result is PeekOk);
        if i < rs.len() { assert(!(rs[i].result is PeekOk)); }
    }
}
pub open spec fn escaped<Input: Stream, P: Parser<Input>, Q: Parser<Input>>(
    a: Escaped<P, Q, Input::Token>, b: Escaped<P, Q, Input::Token>, i: Input, j: Input, r: ParseResult<(), Input::Error>, at: Seq<int>, js: Seq<int>) -> bool
{
    let np = a.parser.runs().len() as int;
    let nq = a.escape_parser.runs().len() as int;
    let ps = b.parser.runs();
    let qs = b.escape_parser.runs();
    let k = ps.len() - np - 1;
    &&& extends(ps, a.parser.runs()) && extends(qs, a.escape_parser.runs()) && k >= 0
    &&& #[trigger] parts(ps, np, qs, nq, i.tokens(), a.escape, at, js, k)
    &&& at[0] == i.at()
    // where the parts end the parser is tried once more, without success
    &&& ps.last().from == at[k] && !ok(ps.last().result)
    &&& ps.last().result is CommitErr ==> r == ParseResult::<(), Input::Error>::CommitErr(ps.last().result->CommitErr_0) && qs.len() == nq + js[k]
    &&& qs.len() == nq + js[k] || qs.len() == nq + js[k] + 1 && r is CommitErr && !ok(qs.last().result) && qs.last().from == at[k] + 1
            && eq(i.tokens()[at[k]], a.escape)
    // it ends there if there is no escape token either, and otherwise it is an error
    &&& ok(r) ==> {
        &&& ps.last().result is PeekErr && qs.len() == nq + js[k]
        &&& j.at() == at[k]
        &&& if consumed(ps, np, k) { r is CommitOk } else { r is PeekOk }
        &&& !eq(i.tokens()[at[k]], a.escape) || exists|x: Input| #[trigger] x.stuck() && x.at() == at[k]
    }
    &&& !ok(r) ==> r is CommitErr
}
impl<P, Q, T> Escaped<P, Q, T> {
    /// The text of the closure
    //@ fn src/parser/repeat.rs | impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token> | parse_lazy
    //@ subst \{\s*let start.*?let result = \(\|\| \{(.*)\n        \}\)\(\);.* => {\1\n}
    //@ subst fn parse_lazy\( => fn parts<Input: Stream<Token = T>>(
    //@ subst Self::Output => ()
    //@ subst input: &mut Input\) -> ParseResult<\(\), Input::Error> => input: &mut Input, places: &mut Ghost<(Seq<int>, Seq<int>)>) -> ParseResult<(), Input::Error> where P: Parser<Input>, Q: Parser<Input>, Q::PartialState: Default
    //@ subst checkpoint\.clone\(\) => clone_checkpoint::<Input>(&checkpoint)
    //@ subst CommitOk\(ref c\) \| PeekOk\(ref c\) if \*c == self\.escape => ref x if yields(x, &self.escape)
    //@ subst &mut Default::default\(\) => &mut Q::PartialState::default()
    //@ subst let checkpoint = input.checkpoint\(\); => *places = Ghost((places@.0.push(input.at()), places@.1.push(self.escape_parser.runs().len() - nq))); let checkpoint = input.checkpoint();
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    //@ contract
        requires old(self).parser.wf(), old(self).escape_parser.wf(), old(places)@ == (Seq::<int>::empty(), Seq::<int>::empty()),
        ensures escaped(*old(self), *final(self), *old(input), *final(input), r, final(places)@.0, final(places)@.1),
            final(input).tokens() == old(input).tokens(),
    //@ loop 0
        invariant
            self.parser.wf(), self.escape_parser.wf(), self.escape == old(self).escape,
            input.tokens() == old(input).tokens(),
            places@.0.push(input.at())[0] == old(input).at(),
            extends(self.parser.runs(), old(self).parser.runs()),
            extends(self.escape_parser.runs(), old(self).escape_parser.runs()),
            parts(self.parser.runs(), np, self.escape_parser.runs(), nq, input.tokens(), self.escape, places@.0.push(input.at()),
                places@.1.push(self.escape_parser.runs().len() - nq), self.parser.runs().len() - np),
            (committed is Commit) == consumed(self.parser.runs(), np, self.parser.runs().len() - np),
    //@ start
        broadcast use lemma_consumed;
        let ghost np = self.parser.runs().len() as int;
        let ghost nq = self.escape_parser.runs().len() as int;
    //@ end
    //@ fn src/parser/repeat.rs | impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token> | parse_lazy
    //@ subst parse_lazy\( => parse_lazy<Input: Stream<Token = T>>(
    //@ subst Self::Output, Input::Error> => (), Input::Error> where P: Parser<Input>, Q: Parser<Input>, Q::PartialState: Default
    //@ subst let result = \(\|\| \{(.*)\n        \}\)\(\); => let mut places = Ghost((Seq::<int>::empty(), Seq::<int>::empty())); let result = self.parts(input, &mut places);
    //@ contract
        requires old(self).parser.wf(), old(self).escape_parser.wf(),
        ensures exists|j: Input, r2: ParseResult<(), Input::Error>, at: Seq<int>, js: Seq<int>| {
            &&& #[trigger] escaped(*old(self), *final(self), *old(input), j, r2, at, js)
            &&& ok(r2) ==> r == r2 && final(input).at() == j.at()
            &&& r2 is CommitErr ==> r is CommitErr
        },
    //@ end
}
}
fn main() {}
