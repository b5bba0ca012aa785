// C05: src/parser/repeat.rs over the contract of a stream and of a parser.
//@ include parsers.inc
pub type StdParseResult2<O, E> = Result<(O, Commit<()>), Commit<Tracked<E>>>;
impl<O, E> ParseResult<O, E> {
    //@ fn src/error.rs | impl<O, E> Into<StdParseResult2<O, E>> for ParseResult<O, E> | into
    //@ subst fn into => fn into_std
    //@ subst use self::ParseResult::\*; => {}
    //@ subst e\.into\(\) => Tracked::from(e)
    //@ contract
        ensures match self {
            CommitOk(t) => r == Ok::<(O, Commit<()>), Commit<Tracked<E>>>((t, Commit::Commit(()))),
            PeekOk(t) => r == Ok::<(O, Commit<()>), Commit<Tracked<E>>>((t, Commit::Peek(()))),
            CommitErr(e) => r is Err && r->Err_0 is Commit && (r->Err_0->Commit_0).error == e,
            PeekErr(e) => r == Err::<(O, Commit<()>), Commit<Tracked<E>>>(Commit::Peek(e)),
        },
    //@ end
}
pub trait ResultExt<E, T>: Sized {
    fn committed(self) -> ParseResult<E, T>;
}
impl<E, T> ResultExt<E, T> for Result<E, T> {
    //@ fn src/error.rs | impl<E, T> ResultExt<E, T> for Result<E, T> | committed
    //@ contract
        ensures r == match self { Ok(x) => ParseResult::<E, T>::CommitOk(x), Err(x) => ParseResult::<E, T>::CommitErr(x) },
    //@ end
}
#[verifier::external_body]
pub fn wrap_stream_error<T, Input: Stream>(input: &Input, err: StreamErrorFor<Input>) -> (r: ParseResult<T, Input::Error>)
    ensures !ok(r),
{ unimplemented!() }
//@ fn src/stream/mod.rs | | uncons
//@ subst Input: \?Sized \+ Stream => Input: Stream
//@ contract
    ensures
        final(input).tokens() == old(input).tokens(),
        r is CommitOk ==> old(input).tokens().len() > old(input).at() >= 0 && r->CommitOk_0 == old(input).tokens()[old(input).at()]
            && final(input).at() == old(input).at() + 1,
        !(r is CommitOk) ==> !ok(r) && final(input).at() == old(input).at() && old(input).stuck(),
//@ end

//@ item src/parser/repeat.rs pub struct TakeUntil<F, P>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst _marker: PhantomData<fn\(\) -> F> => pub _marker: core::marker::PhantomData<F>
//@ end
/// The first k runs behind `before` failed without committing, one place further each time.
pub open spec fn searched<O, E, S>(before: Seq<Run<O, E, S>>, rs: Seq<Run<O, E, S>>, from: int, first: bool, state: S, k: int) -> bool {
    let n = before.len() as int;
    &&& extends(rs, before)
    &&& forall|i: int| n <= i < n + k ==> (#[trigger] rs[i]).result is PeekErr
    &&& forall|i: int| n <= i < rs.len() ==> {
        &&& (#[trigger] rs[i]).from == from + i - n
        &&& rs[i].first == first
        &&& rs[i].state_in == resumes(rs, n, i - n, state)
    }
}
/// The k tokens from place i on
pub open spec fn between<T>(tokens: Seq<T>, i: int, k: int) -> Seq<T> {
    Seq::new(k as nat, |j: int| tokens[i + j])
}
pub broadcast proof fn lemma_next<T>(tokens: Seq<T>, i: int, k: int, t: T)
    requires k >= 0, t == tokens[i + k],
    ensures #[trigger] (between(tokens, i, k) + seq![t]) == between(tokens, i, k + 1),
{
    assert(between(tokens, i, k) + seq![t] =~= between(tokens, i, k + 1));
}
pub broadcast proof fn lemma_nothing<T>(a: Seq<T>, tokens: Seq<T>, i: int)
    ensures #[trigger] (a + between(tokens, i, 0)) == a,
{
    assert(a + between(tokens, i, 0) =~= a);
}
impl<F, P> TakeUntil<F, P> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P> Parser<Input> for TakeUntil<F, P> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (F, bool, P::PartialState)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<Input::Token> + Default, P: Parser<Input>
    //@ subst (parse_mode\(mode, input, end_state\))\.into\(\) => \1.into_std()
    //@ subst output\.extend\(Some\(token\)\) => output.extend(&mut Some(token))
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    //@ contract
        requires old(self).end.wf(),
        ensures ({
            let n = old(self).end.runs().len() as int;
            let rs = final(self).end.runs();
            let last = rs.last();
            let from = old(input).at();
            let k = rs.len() - n - 1;
            let taken = between(old(input).tokens(), from, k);
            let committed = !mode.first() && old(state).1 || k > 0;
            // the end parser is run in front of every token in turn
            &&& searched(old(self).end.runs(), rs, from, mode.first(), old(state).2, k) && k >= 0
            &&& k > 0 ==> 0 <= from && from + k <= old(input).tokens().len()
            &&& last.from == from + k
            &&& final(state).2 == last.state_out
            // and stops in front of its first match
            &&& ok(last.result) ==> r is CommitErr || {
                &&& output(r).items() == old(state).0.items() + taken
                &&& final(input).at() == from + k
                &&& if committed || last.result is CommitOk { r is CommitOk } else { r is PeekOk }
                &&& F::is_default(final(state).0) && !final(state).1
            }
            &&& last.result is CommitErr ==> r is CommitErr && {
                &&& final(state).1 == committed && final(state).0.items() == old(state).0.items() + taken
            }
            // no token is left
            &&& last.result is PeekErr ==> r is CommitErr || r is PeekErr && !committed && F::is_default(final(state).0) && !final(state).1
                    && final(input).at() == from + k
        }),
    //@ loop 0
        invariant
            ({
                let n = old(self).end.runs().len() as int;
                let rs = self.end.runs();
                let from = old(input).at();
                let k = rs.len() - n;
                &&& searched(old(self).end.runs(), rs, from, mode.first(), old(state).2, k) && k >= 0 && self.end.wf()
                &&& input.at() == from + k && input.tokens() == old(input).tokens()
                &&& k > 0 ==> 0 <= from && from + k <= input.tokens().len()
                &&& *end_state == resumes(rs, n, k, old(state).2)
                &&& output.items() == old(state).0.items() + between(input.tokens(), from, k)
                &&& *committed == (!mode.first() && old(state).1 || k > 0)
            }),
    //@ start
        broadcast use {lemma_option, lemma_concat, lemma_next, lemma_nothing};
    //@ end
}

//@ item src/parser/repeat.rs pub struct RepeatUntil<F, P, E>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst _marker: PhantomData<fn\(\) -> F> => pub _marker: core::marker::PhantomData<F>
//@ end
/// The outputs of k runs from number n on
pub open spec fn outputs<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, k: int) -> Seq<O> {
    Seq::new(k as nat, |i: int| output(rs[n + i].result))
}
pub broadcast proof fn lemma_output<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, k: int, t: O)
    requires k >= 0, t == output(rs[n + k].result),
    ensures #[trigger] (outputs(rs, n, k) + seq![t]) == outputs(rs, n, k + 1),
{
    assert(outputs(rs, n, k) + seq![t] =~= outputs(rs, n, k + 1));
}
pub broadcast proof fn lemma_no_output<O, E, S>(a: Seq<O>, rs: Seq<Run<O, E, S>>, n: int)
    ensures #[trigger] (a + outputs(rs, n, 0)) == a,
{
    assert(a + outputs(rs, n, 0) =~= a);
}
pub broadcast proof fn lemma_same_outputs<O, E, S>(rs: Seq<Run<O, E, S>>, r: Run<O, E, S>, n: int, k: int)
    requires 0 <= n, 0 <= k, n + k <= rs.len(),
    ensures #[trigger] outputs(rs.push(r), n, k) == outputs(rs, n, k),
{
    assert(outputs(rs.push(r), n, k) =~= outputs(rs, n, k));
}
pub broadcast proof fn lemma_commits<O, E, S>(rs: Seq<Run<O, E, S>>, r: Run<O, E, S>, n: int)
    requires 0 <= n <= rs.len(),
    ensures #[trigger] commits(rs.push(r), n) == (r.result is CommitOk || commits(rs, n)),
{
    let all = rs.push(r);
    if r.result is CommitOk { assert(all[rs.len() as int].result is CommitOk); }
    if commits(rs, n) {
        let i = choose|i: int| n <= i < rs.len() && (#[trigger] rs[i]).result is CommitOk;
        assert(all[i].result is CommitOk);
    }
    if commits(all, n) {
        let i = choose|i: int| n <= i < all.len() && (#[trigger] all[i]).result is CommitOk;
        if i < rs.len() { assert(rs[i].result is CommitOk); }
    }
}
/// All runs from number n on but the last z succeeded, each from where the one before stopped.
pub open spec fn succeeded<O, E, S>(rs: Seq<Run<O, E, S>>, before: Seq<Run<O, E, S>>, from: int, state: S, z: int) -> bool {
    let n = before.len() as int;
    &&& extends(rs, before)
    &&& forall|i: int| n <= i < rs.len() - z ==> ok((#[trigger] rs[i]).result)
    &&& forall|i: int| n <= i < rs.len() ==> (#[trigger] rs[i]).from == place(rs, n, i - n, from) && rs[i].state_in == resumes(rs, n, i - n, state)
}
/// All of these runs but the last z succeeded, each from where the one before stopped.
pub open spec fn chained<O, E, S>(rs: Seq<Run<O, E, S>>, from: int, state: S, z: int) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() - z ==> ok((#[trigger] rs[i]).result)
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).from == place(rs, 0, i, from) && rs[i].state_in == resumes(rs, 0, i, state)
}
pub broadcast proof fn lemma_add_one<T>(a: Seq<T>, b: Seq<T>)
    requires b.len() == 1,
    ensures #[trigger] (a + b) == a.push(b[0]),
{
    assert(a + b =~= a.push(b[0]));
}
/// All runs of the end parser but the last z failed without committing, run i stood behind d + i elements.
pub open spec fn looked<O, E, S, O2, S2>(es: Seq<Run<O, E, S>>, before: Seq<Run<O, E, S>>, ps: Seq<Run<O2, E, S2>>, np: int, d: int, from: int, z: int) -> bool {
    let n = before.len() as int;
    &&& extends(es, before)
    &&& forall|i: int| n <= i < es.len() - z ==> (#[trigger] es[i]).result is PeekErr
    &&& forall|i: int| n <= i < es.len() ==> (#[trigger] es[i]).from == place(ps, np, i - n + d, from)
}
impl<F, P, E> RepeatUntil<F, P, E> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P, E> Parser<Input> for RepeatUntil<F, P, E> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (F, bool, bool, P::PartialState, E::PartialState)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>, E: Parser<Input>, E::PartialState: Default
    //@ subst (parse_mode\(mode, input, end_state\))\.into\(\) => \1.into_std()
    //@ subst output\.extend\(Some\(token\)\) => output.extend(&mut Some(token))
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    #[verifier::rlimit(80)]
    //@ contract
        requires old(self).parser.wf(), old(self).end.wf(),
        ensures ({
            let np = old(self).parser.runs().len() as int;
            let ne = old(self).end.runs().len() as int;
            let ps = final(self).parser.runs();
            let es = final(self).end.runs();
            let from = old(input).at();
            let d = if old(state).1 { 1int } else { 0 };
            // did the parser fail, or the end parser decide?
            let failed = ps.len() > np && !ok(ps.last().result);
            let z = if failed { 1int } else { 0 };
            let k = ps.len() - np - z;
            let here = place(ps, np, k, from);
            let committed = !mode.first() && old(state).2 || commits(ps, np);
            &&& succeeded(ps, old(self).parser.runs(), from, old(state).3, z)
            &&& looked(es, old(self).end.runs(), ps, np, d, from, 1 - z)
            // the end parser is looked for in front of every element
            &&& es.len() - ne == ps.len() - np + 1 - d - z
            &&& final(state).3 == resumes(ps, np, ps.len() - np, old(state).3)
            &&& failed && ps.last().result is CommitErr ==> {
                &&& r == ParseResult::<F, Input::Error>::CommitErr(ps.last().result->CommitErr_0)
                &&& final(input).at() == ps.last().to
                &&& final(state).1 && final(state).2 == committed
                &&& final(state).0.items() == old(state).0.items() + outputs(ps, np, k)
            }
            &&& failed && ps.last().result is PeekErr ==> {
                &&& if committed { r is CommitErr } else { r is PeekErr }
                &&& !final(state).1 && !final(state).2 && F::is_default(final(state).0)
            }
            &&& !failed && ok(es.last().result) ==> r is CommitErr || {
                &&& output(r).items() == old(state).0.items() + outputs(ps, np, k)
                &&& final(input).at() == here
                &&& if committed || es.last().result is CommitOk { r is CommitOk } else { r is PeekOk }
                &&& F::is_default(final(state).0) && !final(state).1 && !final(state).2
            }
            &&& !failed && !ok(es.last().result) ==> r is CommitErr && {
                &&& final(state).2 == committed && !final(state).1
                &&& final(state).0.items() == old(state).0.items() + outputs(ps, np, k)
            }
        }),
    //@ loop 0
        invariant
            ({
                let np = old(self).parser.runs().len() as int;
                let ne = old(self).end.runs().len() as int;
                let ps = self.parser.runs();
                let es = self.end.runs();
                let from = old(input).at();
                let d = if old(state).1 { 1int } else { 0 };
                let k = ps.len() - np;
                &&& succeeded(ps, old(self).parser.runs(), from, old(state).3, 0)
                &&& looked(es, old(self).end.runs(), ps, np, d, from, 0)
                &&& es.len() - ne == k - d + if *is_parse { 1int } else { 0 }
                &&& self.parser.wf() && self.end.wf()
                &&& *parse_state == resumes(ps, np, k, old(state).3)
                &&& input.at() == place(ps, np, k, from)
                &&& output.items() == old(state).0.items() + outputs(ps, np, k)
                &&& *committed == (!first && old(state).2 || commits(ps, np))
            }),
    //@ start
        let ghost first = mode.first();
        broadcast use {lemma_option, lemma_concat, lemma_output, lemma_no_output, lemma_same_outputs, lemma_commits};
    //@ end
}

impl<T> Commit<T> {
    //@ fn src/error.rs | impl<T> Commit<T> { | combine_commit
    //@ subst use self::ParseResult::\*; => {}
    //@ contract
        requires self is Commit ==> f.requires((self->Commit_0,)), self is Peek ==> f.requires((self->Peek_0,)),
        ensures match self {
            Commit::Commit(t) => exists|x: ParseResult<U, E>| #[trigger] f.ensures((t,), x) && combined(self, x, r),
            Commit::Peek(t) => exists|x: ParseResult<U, E>| #[trigger] f.ensures((t,), x) && combined(self, x, r),
        },
    //@ end
}
pub open spec fn combined<T, U, E>(this: Commit<T>, x: ParseResult<U, E>, r: ParseResult<U, E>) -> bool {
    r == match x {
        _ if this is Peek => x,
        PeekOk(v) => ParseResult::<U, E>::CommitOk(v),
        PeekErr(e) => ParseResult::<U, E>::CommitErr(e.error),
        _ => x,
    }
}
/// combine_commit with the closure's result in place of the closure
//@ fn src/error.rs | impl<T> Commit<T> { | combine_commit
//@ subst fn combine_commit<F, U, E>\(self, f: F\) => fn combine<T, U, E>(this: Commit<T>, f: ParseResult<U, E>)
//@ subst F: FnOnce\(T\) -> ParseResult<U, E>, => T: Sized,
//@ subst match self => match this
//@ subst use self::ParseResult::\*; => {}
//@ subst f\(x\) => f
//@ contract
    ensures combined(this, f, r),
//@ end

//@ assume Parser::with is a parser whose runs contain the runs of its second part (C01)
pub struct PartState<S> { pub state: S }
pub struct WithState<S, P> { pub A: PartState<S>, pub B: PartState<P> }
#[allow(non_snake_case)]
pub struct With<'a, S, P, R, H> { pub s: &'a mut S, pub p: &'a mut P, pub runs: Ghost<R>, pub before: Ghost<H> }
/// The runs of P in these runs of S with P
pub uninterp spec fn element_runs<R, H>(runs: R) -> H;
pub type WithRuns<Input, S, P> = Seq<Run<<P as Parser<Input>>::Output, <Input as StreamOnce>::Error, WithState<<S as Parser<Input>>::PartialState, <P as Parser<Input>>::PartialState>>>;
pub type WithOf<'a, Input, S, P> = With<'a, S, P, WithRuns<Input, S, P>, Runs<Input, P>>;
impl<'a, Input: Stream, S: Parser<Input>, P: Parser<Input>> Parser<Input> for WithOf<'a, Input, S, P> {
    type Output = P::Output;
    type PartialState = WithState<S::PartialState, P::PartialState>;
    open spec fn runs(&self) -> WithRuns<Input, S, P> { self.runs@ }
    type Lends = (S, P, Runs<Input, P>);
    #[verifier::prophetic]
    open spec fn lends(&self) -> (S, P, Runs<Input, P>) { (*final(self.s), *final(self.p), self.before@) }
    open spec fn wf(&self) -> bool {
        &&& self.s.wf() && self.p.wf()
        &&& self.p.runs() == self.before@ + element_runs::<WithRuns<Input, S, P>, Runs<Input, P>>(self.runs@)
    }
    #[verifier::external_body]
    fn parse_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn with<'a, Input: Stream, S: Parser<Input>, P: Parser<Input>>(s: &'a mut S, p: &'a mut P) -> (r: WithOf<'a, Input, S, P>)
    requires old(s).wf(), old(p).wf(),
    ensures r.wf(), r.runs().len() == 0, r.before@ == old(p).runs(), *r.s == *old(s), *r.p == *old(p),
        *final(r.s) == *final(s), *final(r.p) == *final(p),
{ unimplemented!() }

//@ item src/parser/repeat.rs pub struct SepBy1<F, P, S>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst _marker: PhantomData<fn\(\) -> F> => pub _marker: core::marker::PhantomData<F>
//@ end
impl<F, P, S> SepBy1<F, P, S> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P, S> Parser<Input> for SepBy1<F, P, S> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (Option<Commit<()>>, F, WithState<S::PartialState, P::PartialState>)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>, S: Parser<Input>
    //@ subst elements\.extend\(Some\(first\)\) => elements.extend(&mut Some(first))
    //@ subst let rest = \(&mut self\.separator\)\.with\(&mut self\.parser\) => let mut rest = with::<Input, S, P>(&mut self.separator, &mut self.parser)
    //@ subst Iter::new\(rest, => Iter::new(&mut rest,
    //@ subst iter\.by_ref\(\) => &mut iter
    //@ subst (iter\.into_result_fast\(elements\))\.map\(\|x\| \{(.*?)x\s*\}\) => { let r = \1; if r.is_ok() { \2 } r }
    //@ subst rest\.combine_commit\((?:move )?\|_\| \{(.*)\n        \}\) => let inner = {\1\n        }; combine(rest, inner)
    //@ contract
        requires old(self).parser.wf(), old(self).separator.wf(),
        ensures ({
            let n = old(self).parser.runs().len() as int;
            let first = final(self).parser.runs()[n];
            let fresh = old(state).0 is None;
            let base = if fresh { old(state).1.items() + seq![output(first.result)] } else { old(state).1.items() };
            let from = if fresh { first.to } else { old(input).at() };
            &&& extends(final(self).parser.runs(), old(self).parser.runs())
            // the first element
            &&& fresh ==> {
                &&& final(self).parser.runs().len() > n
                &&& first.from == old(input).at() && first.first == mode.first() && first.state_in == old(state).2.B.state
            }
            &&& if fresh && !ok(first.result) {
                &&& first.result is CommitErr ==> r == ParseResult::<F, Input::Error>::CommitErr(first.result->CommitErr_0)
                &&& first.result is PeekErr ==> r == ParseResult::<F, Input::Error>::PeekErr(first.result->PeekErr_0)
                &&& final(input).at() == first.to
                &&& final(state).0 is None && final(state).1 == old(state).1
                &&& final(self).parser.runs().len() == n + 1
            } else {
                // the rest of them
                exists|rs: WithRuns<Input, S, P>, n0: int, at: int, anew: bool, st: WithState<S::PartialState, P::PartialState>, outs: Seq<P::Output>| {
                    let last = rs.last();
                    let committed = if fresh { first.result is CommitOk } else { old(state).0->0 is Commit } || commits(rs, 0);
                    &&& #[trigger] repetition(rs, n0, at, anew, st, outs)
                    &&& n0 == 0 && at == from && anew == mode.first()
                    &&& st.A == old(state).2.A && st.B.state == if fresh { first.state_out } else { old(state).2.B.state }
                    &&& final(self).parser.runs() == if fresh { old(self).parser.runs().push(first) } else { old(self).parser.runs() }
                        + element_runs::<WithRuns<Input, S, P>, Runs<Input, P>>(rs)
                    &&& last.result is CommitErr ==> {
                        &&& r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0)
                        &&& final(input).at() == last.to
                        &&& final(state).0 is Some && (final(state).0->0 is Commit) == committed
                        &&& final(state).1.items() == base + outs
                    }
                    &&& last.result is PeekErr ==> r is CommitErr || {
                        &&& final(input).at() == last.from
                        &&& output(r).items() == base + outs
                        &&& if committed { r is CommitOk } else { r is PeekOk }
                        &&& final(state).0 is None
                        &&& F::is_default(final(state).1)
                    }
                    &&& final(state).2 == last.state_out
                }
            }
        }),
    //@ start
        broadcast use {lemma_option, lemma_drained};
    //@ end
}

//@ fn src/error.rs | impl<O, E> From<StdParseResult2<O, E>> for ParseResult<O, E> | from
//@ subst fn from\( => fn from_std<O, E>(
//@ subst use self::ParseResult::\*; => {}
//@ contract
    ensures match result {
        Ok((t, Commit::Commit(_))) => r == ParseResult::<O, E>::CommitOk(t),
        Ok((t, Commit::Peek(_))) => r == ParseResult::<O, E>::PeekOk(t),
        Err(Commit::Commit(e)) => r == ParseResult::<O, E>::CommitErr(e.error),
        Err(Commit::Peek(e)) => r == ParseResult::<O, E>::PeekErr(e),
    },
//@ end
impl<T> Commit<T> {
    //@ fn src/error.rs | impl<T> Commit<T> { | into_inner
    //@ subst Commit::Peek\(x\) \| Commit::Commit\(x\) => Commit::Peek(x) => x, Commit::Commit(x)
    //@ end
    //@ fn src/error.rs | impl<T> Commit<T> { | into_commit
    //@ contract
        ensures r is Commit,
    //@ end
    //@ fn src/error.rs | impl<T> Commit<T> { | merge
    //@ contract
        ensures r is Commit == (self is Commit || current is Commit),
    //@ end
}

//@ assume a pair of parsers is a parser (C01)
pub struct Both<'a, O, P, R, H> { pub o: &'a mut O, pub p: &'a mut P, pub runs: Ghost<R>, pub before: Ghost<H> }
pub type BothRuns<Input, O, P> = Seq<Run<(<O as Parser<Input>>::Output, <P as Parser<Input>>::Output), <Input as StreamOnce>::Error, WithState<<O as Parser<Input>>::PartialState, <P as Parser<Input>>::PartialState>>>;
pub type BothOf<'a, Input, O, P> = Both<'a, O, P, BothRuns<Input, O, P>, Runs<Input, P>>;
impl<'a, Input: Stream, O: Parser<Input>, P: Parser<Input>> Parser<Input> for BothOf<'a, Input, O, P> {
    type Output = (O::Output, P::Output);
    type PartialState = WithState<O::PartialState, P::PartialState>;
    open spec fn runs(&self) -> BothRuns<Input, O, P> { self.runs@ }
    type Lends = (O, P, Runs<Input, P>);
    #[verifier::prophetic]
    open spec fn lends(&self) -> (O, P, Runs<Input, P>) { (*final(self.o), *final(self.p), self.before@) }
    open spec fn wf(&self) -> bool {
        self.o.wf() && self.p.wf() && extends(self.p.runs(), self.before@)
    }
    #[verifier::external_body]
    fn parse_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn both<'a, Input: Stream, O: Parser<Input>, P: Parser<Input>>(o: &'a mut O, p: &'a mut P) -> (r: BothOf<'a, Input, O, P>)
    requires old(o).wf(), old(p).wf(),
    ensures r.wf(), r.runs().len() == 0, r.before@ == old(p).runs(), *r.o == *old(o), *r.p == *old(p),
        *final(r.o) == *final(o), *final(r.p) == *final(p),
{ unimplemented!() }

/// What each pair of operator and operand makes of what is on the left of it.
pub open spec fn folds<Op: FnOnce(O, O) -> O, O, E, S>(rs: Seq<Run<(Op, O), E, S>>, ls: Seq<O>) -> bool {
    &&& ls.len() > 0
    &&& forall|i: int| 0 <= i < ls.len() - 1 ==> call_ensures(output((#[trigger] rs[i]).result).0, (ls[i], output(rs[i].result).1), ls[i + 1])
}

//@ item src/parser/repeat.rs pub struct Chainl1<P, Op>
//@ subst \(P, Op\) => (pub P, pub Op)
//@ end
impl<P, Op> Chainl1<P, Op> {
    //@ fn src/parser/repeat.rs | impl<Input, P, Op> Parser<Input> for Chainl1<P, Op> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (Option<(P::Output, Commit<()>)>, WithState<Op::PartialState, P::PartialState>)
    //@ subst Self::Output => P::Output
    //@ subst M: ParseMode => M: ParseMode, P: Parser<Input>, Op: Parser<Input>, Op::Output: FnOnce(P::Output, P::Output) -> P::Output
    //@ subst match \(&mut self\.1, &mut self\.0\)\s*\.parse_mode\(mode, input, child_state\)\s*\.into\(\) => let mut pair = both::<Input, Op, P>(&mut self.1, &mut self.0); let result = pair.parse_mode(mode, input, child_state); proof { rs = rs + pair.runs@; assert(folds(rs, ls)); } match result.into_std()
    //@ subst \n\s*loop \{ => proof { ls = seq![l]; } loop {
    //@ subst l = op\(l, r\); => l = op(l, r); proof { ls = ls.push(l); }
    //@ subst Ok\(\(l, committed\)\)\.into\(\) => from_std(Ok((l, committed)))
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    //@ contract
        requires old(self).0.wf(), old(self).1.wf(), forall|op: Op::Output, a: P::Output, b: P::Output| #[trigger] call_requires(op, (a, b)),
        ensures ({
            let n = old(self).0.runs().len() as int;
            let first = final(self).0.runs()[n];
            let fresh = old(state).0 is None;
            &&& extends(final(self).0.runs(), old(self).0.runs())
            &&& fresh ==> {
                &&& final(self).0.runs().len() > n
                &&& first.from == old(input).at() && first.state_in == old(state).1.B.state
            }
            &&& if fresh && !ok(first.result) {
                &&& first.result is CommitErr ==> r == ParseResult::<P::Output, Input::Error>::CommitErr(first.result->CommitErr_0)
                &&& first.result is PeekErr ==> r == ParseResult::<P::Output, Input::Error>::PeekErr(first.result->PeekErr_0)
                &&& final(input).at() == first.to
                &&& final(state).0 is None
            } else {
                let from = if fresh { first.to } else { old(input).at() };
                exists|rs: BothRuns<Input, Op, P>, ls: Seq<P::Output>| {
                    let last = rs.last();
                    let committed = if fresh { first.result is CommitOk } else { (old(state).0->0).1 is Commit } || commits(rs, 0);
                    &&& rs.len() == ls.len() && #[trigger] folds(rs, ls)
                    &&& rs[0].state_in.A == old(state).1.A && rs[0].state_in.B.state == if fresh { first.state_out } else { old(state).1.B.state }
                    &&& chained(rs, from, rs[0].state_in, 1)
                    &&& !ok(last.result)
                    &&& ls[0] == if fresh { output(first.result) } else { (old(state).0->0).0 }
                    &&& last.result is CommitErr ==> {
                        &&& r == ParseResult::<P::Output, Input::Error>::CommitErr(last.result->CommitErr_0)
                        &&& final(input).at() == last.to
                        &&& final(state).0 is Some && (final(state).0->0).0 == ls.last() && ((final(state).0->0).1 is Commit) == committed
                    }
                    &&& last.result is PeekErr ==> final(state).0 is None && (r is CommitErr || {
                        &&& final(input).at() == last.from
                        &&& output(r) == ls.last()
                        &&& if committed { r is CommitOk } else { r is PeekOk }
                    })
                    &&& final(state).1 == last.state_out
                }
            }
        }),
    //@ start
        broadcast use {lemma_add_one, lemma_commits};
        let ghost mut rs: BothRuns<Input, Op, P> = seq![];
        let ghost mut ls: Seq<P::Output> = seq![];
    //@ loop 0
        invariant
            ({
                let n = old(self).0.runs().len() as int;
                let fresh = old(state).0 is None;
                let first = self.0.runs()[n];
                let from = if fresh { first.to } else { old(input).at() };
                let st = WithState { A: old(state).1.A, B: PartState { state: if fresh { first.state_out } else { old(state).1.B.state } } };
                &&& self.0.wf() && self.1.wf()
                &&& extends(self.0.runs(), old(self).0.runs())
                &&& fresh ==> {
                    &&& self.0.runs().len() > n && ok(first.result)
                    &&& first.from == old(input).at() && first.state_in == old(state).1.B.state
                }
                &&& rs.len() + 1 == ls.len() && folds(rs, ls)
                &&& chained(rs, from, st, 0)
                &&& input.at() == place(rs, 0, rs.len() as int, from)
                &&& *child_state == resumes(rs, 0, rs.len() as int, st)
                &&& ls[0] == if fresh { output(first.result) } else { (old(state).0->0).0 }
                &&& ls.last() == l
                &&& (committed is Commit) == (if fresh { first.result is CommitOk } else { (old(state).0->0).1 is Commit } || commits(rs, 0))
                &&& *l_state is None
            }),
    //@ end
}

//@ assume Iterator::scan with a closure that gives its argument keeps the contract of Scan
/// `iter.by_ref().scan((), |_, x| x)`
pub struct Scan<'b, I> { pub iter: &'b mut I }
impl<'b, T, I: Iterator<Item = Option<T>>> Iterator for Scan<'b, I> {
    type Item = T;
    open spec fn wf(&self) -> bool { self.iter.wf() }
    #[verifier::prophetic]
    open spec fn step(a: Self, b: Self, r: Option<T>) -> bool {
        &&& match r {
            Some(x) => I::step(*a.iter, *b.iter, Some(Some(x))),
            None => I::step(*a.iter, *b.iter, Some(None)) || I::step(*a.iter, *b.iter, None),
        }
        &&& *final(a.iter) == *final(b.iter)
    }
    fn next(&mut self) -> (r: Option<T>) {
        match self.iter.next() {
            None => None,
            Some(x) => x,
        }
    }
}
pub open spec fn somes<T>(s: Seq<T>) -> Seq<Option<T>> {
    Seq::new(s.len(), |i: int| Some(s[i]))
}
#[verifier::prophetic]
pub open spec fn scanned<'b, T, I: Iterator<Item = Option<T>>>(a: Scan<'b, I>, b: Scan<'b, I>, taken: Seq<T>) -> bool {
    took(*a.iter, *b.iter, somes(taken)) && *final(a.iter) == *final(b.iter)
}
proof fn lemma_scan_took<'b, T, I: Iterator<Item = Option<T>>>(a: Scan<'b, I>, b: Scan<'b, I>, taken: Seq<T>)
    requires took(a, b, taken),
    ensures scanned(a, b, taken),
    decreases taken.len(),
{
    if taken.len() > 0 {
        let m = choose|m: Scan<'b, I>| #[trigger] Scan::<'b, I>::step(a, m, Some(taken[0])) && took(m, b, taken.drop_first());
        lemma_scan_took(m, b, taken.drop_first());
        assert(somes(taken).drop_first() =~= somes(taken.drop_first()));
        assert(I::step(*a.iter, *m.iter, Some(somes(taken)[0])));
    }
}
proof fn lemma_took_push<I: Iterator>(a: I, m: I, b: I, taken: Seq<I::Item>, x: I::Item)
    requires took(a, m, taken), I::step(m, b, Some(x)),
    ensures took(a, b, taken.push(x)),
    decreases taken.len(),
{
    let all = taken.push(x);
    if taken.len() > 0 {
        let c = choose|c: I| #[trigger] I::step(a, c, Some(taken[0])) && took(c, m, taken.drop_first());
        lemma_took_push(c, m, b, taken.drop_first(), x);
        assert(all.drop_first() =~= taken.drop_first().push(x));
        assert(I::step(a, c, Some(all[0])));
    } else {
        assert(all.drop_first().len() == 0);
        assert(I::step(a, b, Some(all[0])) && took(b, b, all.drop_first()));
    }
}
/// It ends at a failure, or at a run that gives None.
#[verifier::prophetic]
pub open spec fn scan_ran<'a, 'b, T, Input: Stream, P: Parser<Input, Output = Option<T>>, M: ParseMode>(a: Scan<'b, Iter<'a, Input, P, M>>, b: Scan<'b, Iter<'a, Input, P, M>>, taken: Seq<T>) -> bool {
    &&& Iter::<'a, Input, P, M>::ran(*a.iter, *b.iter, somes(taken)) || Iter::<'a, Input, P, M>::gave(*a.iter, *b.iter, somes(taken).push(None))
    &&& *final(a.iter) == *final(b.iter)
}
pub proof fn lemma_scan<'a, 'b, T, Input: Stream, P: Parser<Input, Output = Option<T>>, M: ParseMode>(a: Scan<'b, Iter<'a, Input, P, M>>, b: Scan<'b, Iter<'a, Input, P, M>>, taken: Seq<T>)
    requires drained(a, b, taken),
    ensures scan_ran(a, b, taken),
{
    let m = choose|m: Scan<'b, Iter<'a, Input, P, M>>| #[trigger] took(a, m, taken) && Scan::<'b, Iter<'a, Input, P, M>>::step(m, b, None);
    lemma_scan_took(a, m, taken);
    let (x, z, y) = (*a.iter, *m.iter, *b.iter);
    lemma_took(x, z, somes(taken));
    if Iter::<'a, Input, P, M>::step(z, y, None) {
        lemma_stop(x, z, y, somes(taken));
    } else {
        lemma_took_push(x, z, y, somes(taken), None);
        lemma_took(x, y, somes(taken).push(None));
    }
}

//@ assume separator.with(optional(parser)) is a parser whose runs contain the runs of its second part (C01, C02)
#[allow(non_snake_case)]
pub struct Perhaps<'a, S, P, R, H> { pub s: &'a mut S, pub p: &'a mut P, pub runs: Ghost<R>, pub before: Ghost<H> }
pub type PerhapsRuns<Input, S, P> = Seq<Run<Option<<P as Parser<Input>>::Output>, <Input as StreamOnce>::Error, WithState<<S as Parser<Input>>::PartialState, <P as Parser<Input>>::PartialState>>>;
pub type PerhapsOf<'a, Input, S, P> = Perhaps<'a, S, P, PerhapsRuns<Input, S, P>, Runs<Input, P>>;
impl<'a, Input: Stream, S: Parser<Input>, P: Parser<Input>> Parser<Input> for PerhapsOf<'a, Input, S, P> {
    type Output = Option<P::Output>;
    type PartialState = WithState<S::PartialState, P::PartialState>;
    open spec fn runs(&self) -> PerhapsRuns<Input, S, P> { self.runs@ }
    type Lends = (S, P, Runs<Input, P>);
    #[verifier::prophetic]
    open spec fn lends(&self) -> (S, P, Runs<Input, P>) { (*final(self.s), *final(self.p), self.before@) }
    open spec fn wf(&self) -> bool {
        &&& self.s.wf() && self.p.wf()
        &&& self.p.runs() == self.before@ + element_runs::<PerhapsRuns<Input, S, P>, Runs<Input, P>>(self.runs@)
    }
    #[verifier::external_body]
    fn parse_mode<M: ParseMode>(&mut self, mode: M, input: &mut Input, state: &mut Self::PartialState) -> (r: ParseResult<Self::Output, Input::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn with_optional<'a, Input: Stream, S: Parser<Input>, P: Parser<Input>>(s: &'a mut S, p: &'a mut P) -> (r: PerhapsOf<'a, Input, S, P>)
    requires old(s).wf(), old(p).wf(),
    ensures r.wf(), r.runs().len() == 0, r.before@ == old(p).runs(), *r.s == *old(s), *r.p == *old(p),
        *final(r.s) == *final(s), *final(r.p) == *final(p),
{ unimplemented!() }

pub broadcast proof fn lemma_scan_perhaps<'a, 'b, 'c, Input: Stream, S: Parser<Input>, P: Parser<Input>, M: ParseMode>(
    a: Scan<'b, Iter<'a, Input, PerhapsOf<'c, Input, S, P>, M>>, b: Scan<'b, Iter<'a, Input, PerhapsOf<'c, Input, S, P>, M>>, taken: Seq<P::Output>)
    requires #[trigger] drained(a, b, taken),
    ensures scan_ran(a, b, taken),
{
    lemma_scan(a, b, taken);
}
//@ item src/parser/repeat.rs pub struct SepEndBy1<F, P, S>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst _marker: PhantomData<fn\(\) -> F> => pub _marker: core::marker::PhantomData<F>
//@ end
impl<F, P, S> SepEndBy1<F, P, S> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P, S> Parser<Input> for SepEndBy1<F, P, S> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (Option<Commit<()>>, F, WithState<S::PartialState, P::PartialState>)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>, S: Parser<Input>
    //@ subst elements\.extend\(Some\(first\)\) => elements.extend(&mut Some(first))
    //@ subst let rest = \(&mut self\.separator\)\.with\(optional\(&mut self\.parser\)\) => let mut rest = with_optional::<Input, S, P>(&mut self.separator, &mut self.parser)
    //@ subst Iter::new\(rest, => Iter::new(&mut rest,
    //@ subst iter\.by_ref\(\)\.scan\(\(\), \|_, x\| x\) => &mut Scan { iter: &mut iter }
    //@ subst (iter\.into_result_fast\(elements\))\.map\(\|x\| \{(.*?)x\s*\}\) => { let r = \1; if r.is_ok() { \2 } r }
    //@ subst rest\.combine_commit\((?:move )?\|_\| \{(.*)\n        \}\) => let inner = {\1\n        }; combine(rest, inner)
    //@ contract
        requires old(self).parser.wf(), old(self).separator.wf(),
        ensures ({
            let n = old(self).parser.runs().len() as int;
            let first = final(self).parser.runs()[n];
            let fresh = old(state).0 is None;
            let base = if fresh { old(state).1.items() + seq![output(first.result)] } else { old(state).1.items() };
            let from = if fresh { first.to } else { old(input).at() };
            &&& extends(final(self).parser.runs(), old(self).parser.runs())
            // the first element
            &&& fresh ==> {
                &&& final(self).parser.runs().len() > n
                &&& first.from == old(input).at() && first.first == mode.first() && first.state_in == old(state).2.B.state
            }
            &&& if fresh && !ok(first.result) {
                &&& first.result is CommitErr ==> r == ParseResult::<F, Input::Error>::CommitErr(first.result->CommitErr_0)
                &&& first.result is PeekErr ==> r == ParseResult::<F, Input::Error>::PeekErr(first.result->PeekErr_0)
                &&& final(input).at() == first.to
                &&& final(state).0 is None && final(state).1 == old(state).1
                &&& final(self).parser.runs().len() == n + 1
            } else {
                // the rest of them: up to a failure, or to a separator without an element behind it
                exists|rs: PerhapsRuns<Input, S, P>, n0: int, at: int, anew: bool, st: WithState<S::PartialState, P::PartialState>, all: Seq<Option<P::Output>>, outs: Seq<P::Output>| {
                    let last = rs.last();
                    let committed = if fresh { first.result is CommitOk } else { old(state).0->0 is Commit } || commits(rs, 0);
                    &&& #[trigger] successes(rs, n0, at, anew, st, all)
                    &&& n0 == 0 && at == from && anew == mode.first()
                    &&& rs.len() == outs.len() + 1
                    &&& st.A == old(state).2.A && st.B.state == if fresh { first.state_out } else { old(state).2.B.state }
                    &&& final(self).parser.runs() == if fresh { old(self).parser.runs().push(first) } else { old(self).parser.runs() }
                        + element_runs::<PerhapsRuns<Input, S, P>, Runs<Input, P>>(rs)
                    &&& ok(last.result) ==> output(last.result) is None && all == (#[trigger] somes(outs)).push(None)
                    &&& !ok(last.result) ==> all == somes(outs)
                    &&& last.result is CommitErr ==> {
                        &&& r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0)
                        &&& final(input).at() == last.to
                        &&& final(state).0 is Some && (final(state).0->0 is Commit) == committed
                        &&& final(state).1.items() == base + outs
                    }
                    &&& !(last.result is CommitErr) ==> last.result is PeekErr && r is CommitErr || {
                        &&& final(input).at() == if ok(last.result) { last.to } else { last.from }
                        &&& output(r).items() == base + outs
                        &&& if committed { r is CommitOk } else { r is PeekOk }
                        &&& final(state).0 is None
                        &&& F::is_default(final(state).1)
                    }
                    &&& final(state).2 == last.state_out
                }
            }
        }),
    //@ start
        broadcast use {lemma_option, lemma_scan_perhaps};
    //@ end
}
fn main() {}
}
