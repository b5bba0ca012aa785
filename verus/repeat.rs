// C04: src/parser/repeat.rs over the contract of a stream and of a parser.
//@ include parsers.inc
//@ item src/parser/repeat.rs pub struct Many<F, P>
//@ subst \(P, PhantomData<F>\) => (pub P, pub core::marker::PhantomData<F>)
//@ end

impl<F, P> Many<F, P> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P> Parser<Input> for Many<F, P> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (bool, F, P::PartialState)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>
    //@ subst \(&mut self\.0\)\.partial_iter\(mode, input, child_state\) => Iter::new(&mut self.0, mode, input, child_state)
    //@ subst iter\.by_ref\(\) => &mut iter
    //@ subst (iter\.into_result_fast\(elements\))\.map\(\|x\| \{(.*?)x\s*\}\) => { let r = \1; if r.is_ok() { \2 } r }
    //@ contract
        requires old(self).0.wf(),
        ensures ({
            let n = old(self).0.runs().len() as int;
            let rs = final(self).0.runs();
            let last = rs.last();
            &&& extends(rs, old(self).0.runs())
            &&& exists|outs: Seq<P::Output>| {
                let committed = !mode.first() && old(state).0 || commits(rs, n);
                &&& #[trigger] repetition(rs, n, old(input).at(), mode.first(), old(state).2, outs)
                &&& last.result is CommitErr ==> {
                    &&& r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0)
                    &&& final(input).at() == last.to
                    &&& final(state).0 == committed
                    &&& final(state).1.items() == old(state).1.items() + outs
                }
                &&& last.result is PeekErr ==> r is CommitErr || {
                    &&& final(input).at() == last.from
                    &&& output(r).items() == old(state).1.items() + outs
                    &&& if committed { r is CommitOk } else { r is PeekOk }
                    &&& final(state).0 == false
                    &&& F::is_default(final(state).1)
                }
            }
            &&& final(state).2 == last.state_out
        }),
    //@ start
        broadcast use lemma_drained;
    //@ end
}

//@ item src/parser/repeat.rs pub struct Many1<F, P>
//@ subst \(P, PhantomData<fn\(\) -> F>\) => (pub P, pub core::marker::PhantomData<F>)
//@ end
/// The same repetition, seen from its first run
pub open spec fn repetition1<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, from: int, first: bool, state: S, outs: Seq<O>) -> bool {
    &&& rs.len() == n + outs.len() + 1
    &&& successes(rs, n, from, first, state, outs)
    &&& !ok(rs.last().result)
}
pub broadcast proof fn lemma_first<O, E, S>(rs: Seq<Run<O, E, S>>, n: int, from: int, first: bool, state: S, outs: Seq<O>)
    requires #[trigger] repetition(rs, n, from, first, state, outs), n >= 0,
    ensures repetition1(rs, n, from, first, state, outs),
        n > 0 && ok(rs[n - 1].result) && rs[n - 1].to == from && first && rs[n - 1].state_out == state
            ==> repetition1(rs, n - 1, rs[n - 1].from, rs[n - 1].first, rs[n - 1].state_in, seq![output(rs[n - 1].result)] + outs)
                && commits(rs, n - 1) == (rs[n - 1].result is CommitOk || commits(rs, n)),
{
    if n > 0 && ok(rs[n - 1].result) && rs[n - 1].to == from && first && rs[n - 1].state_out == state {
        let all = seq![output(rs[n - 1].result)] + outs;
        assert forall|i: int| 0 <= i < all.len() implies {
            &&& ok((#[trigger] rs[n - 1 + i]).result)
            &&& all[i] == output(rs[n - 1 + i].result)
        } by {
            if i > 0 { assert(rs[n + (i - 1)] == rs[n - 1 + i]); }
        }
        assert forall|i: int| 0 <= i < rs.len() - (n - 1) implies {
            &&& (#[trigger] rs[n - 1 + i]).from == place(rs, n - 1, i, rs[n - 1].from)
            &&& rs[n - 1 + i].first == (rs[n - 1].first || i > 0)
            &&& rs[n - 1 + i].state_in == resumes(rs, n - 1, i, rs[n - 1].state_in)
        } by {
            if i > 0 { assert(rs[n + (i - 1)] == rs[n - 1 + i]); }
        }
    }
}

impl<F, P> Many1<F, P> {
    //@ fn src/parser/repeat.rs | impl<F, Input, P> Parser<Input> for Many1<F, P> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (bool, bool, F, P::PartialState)
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>
    //@ subst elements\.extend\(Some\(first\)\) => elements.extend(&mut Some(first))
    //@ subst iter\.by_ref\(\) => &mut iter
    //@ subst (iter\.into_result_fast\(elements\))\.map\(\|x\| \{(.*?)x\s*\}\) => { let r = \1; if r.is_ok() { \2 } r }
    //@ contract
        requires old(self).0.wf(), mode.first() ==> !old(state).0,
        ensures ({
            let n = old(self).0.runs().len() as int;
            let rs = final(self).0.runs();
            let last = rs.last();
            let fresh = !old(state).0;
            let committed = !fresh && old(state).1 || commits(rs, n);
            &&& extends(rs, old(self).0.runs())
            &&& if fresh && rs.len() == n + 1 {
                // the first run failed
                &&& last.from == old(input).at() && last.first == mode.first() && last.state_in == old(state).3
                &&& r is CommitErr || r is PeekErr
                &&& last.result is CommitErr ==> r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0)
                &&& last.result is PeekErr ==> r == ParseResult::<F, Input::Error>::PeekErr(last.result->PeekErr_0)
                &&& final(input).at() == last.to
                &&& final(state).0 == false
                &&& final(state).2 == old(state).2
            } else {
                exists|outs: Seq<P::Output>| {
                    &&& #[trigger] repetition1(rs, n, old(input).at(), mode.first(), old(state).3, outs)
                    &&& last.result is CommitErr ==> {
                        &&& r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0)
                        &&& final(input).at() == last.to
                        &&& final(state).0 && final(state).1 == committed
                        &&& final(state).2.items() == old(state).2.items() + outs
                    }
                    &&& last.result is PeekErr ==> r is CommitErr || {
                        &&& final(input).at() == last.from
                        &&& output(r).items() == old(state).2.items() + outs
                        &&& if committed { r is CommitOk } else { r is PeekOk }
                        &&& final(state).0 == false
                        &&& F::is_default(final(state).2)
                    }
                }
            }
            &&& final(state).3 == last.state_out
        }),
    //@ start
        broadcast use {lemma_drained, lemma_option, lemma_first, lemma_concat};
    //@ end
}

//@ assume Iterator::take followed by inspect with a counter keeps the contract of Counted
/// `iter.by_ref().take(left).inspect(|_| *count += 1)`
pub struct Counted<'b, I> { pub iter: &'b mut I, pub left: usize, pub count: &'b mut usize }
impl<'b, I: Iterator> Iterator for Counted<'b, I> {
    type Item = I::Item;
    open spec fn wf(&self) -> bool { self.iter.wf() && *self.count + self.left <= usize::MAX }
    #[verifier::prophetic]
    open spec fn step(a: Self, b: Self, r: Option<I::Item>) -> bool {
        &&& if a.left == 0 { r is None && b.left == 0 && *b.iter == *a.iter } else { I::step(*a.iter, *b.iter, r) && b.left == a.left - 1 }
        &&& *b.count == *a.count + if r is Some { 1int } else { 0 }
        &&& *final(a.iter) == *final(b.iter) && *final(a.count) == *final(b.count)
    }
    fn next(&mut self) -> (r: Option<I::Item>) {
        if self.left == 0 { return None; }
        self.left -= 1;
        match self.iter.next() {
            None => None,
            Some(x) => {
                *self.count += 1;
                Some(x)
            }
        }
    }
}
pub mod cmp {
    use super::*;
    //@ assume cmp::min gives the smaller
    #[verifier::external_body]
    pub fn min(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { a } else { b },
    { unimplemented!() }
}
//@ item src/parser/repeat.rs struct SuggestSizeHint<I>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst struct => pub struct
//@ end
impl<I: Iterator> Iterator for SuggestSizeHint<I> {
    type Item = I::Item;
    open spec fn wf(&self) -> bool { self.iterator.wf() }
    #[verifier::prophetic]
    open spec fn step(a: Self, b: Self, r: Option<I::Item>) -> bool {
        I::step(a.iterator, b.iterator, r)
    }
    //@ fn src/parser/repeat.rs | impl<I> Iterator for SuggestSizeHint<I> | next
    //@ end
}
//@ fn src/parser/repeat.rs | | suggest_size_hint
//@ subst \(min, max\): \(usize, Option<usize>\) => hint: (usize, Option<usize>)
//@ subst min: cmp::min\(min => min: cmp::min(hint.0
//@ subst \n( *)max, => \n\1max: hint.1,
//@ contract
    ensures r.iterator == iterator,
//@ end

#[verifier::prophetic]
pub open spec fn counted<'b, I: Iterator>(a: SuggestSizeHint<Counted<'b, I>>, b: SuggestSizeHint<Counted<'b, I>>, taken: Seq<I::Item>) -> bool {
    &&& took(*a.iterator.iter, *b.iterator.iter, taken)
    &&& b.iterator.left == a.iterator.left - taken.len() && taken.len() <= a.iterator.left
    &&& *b.iterator.count == *a.iterator.count + taken.len()
    &&& *final(a.iterator.iter) == *final(b.iterator.iter) && *final(a.iterator.count) == *final(b.iterator.count)
}
pub broadcast proof fn lemma_counted<'b, I: Iterator>(a: SuggestSizeHint<Counted<'b, I>>, b: SuggestSizeHint<Counted<'b, I>>, taken: Seq<I::Item>)
    requires #[trigger] took(a, b, taken),
    ensures counted(a, b, taken),
    decreases taken.len(),
{
    if taken.len() > 0 {
        let m = choose|m: SuggestSizeHint<Counted<'b, I>>| #[trigger] SuggestSizeHint::<Counted<'b, I>>::step(a, m, Some(taken[0])) && took(m, b, taken.drop_first());
        lemma_counted(m, b, taken.drop_first());
        assert(I::step(*a.iterator.iter, *m.iterator.iter, Some(taken[0])));
    }
}

#[verifier::prophetic]
pub open spec fn count_ran<'a, 'b, Input: Stream, P: Parser<Input>, M: ParseMode>(
    a: SuggestSizeHint<Counted<'b, Iter<'a, Input, P, M>>>, b: SuggestSizeHint<Counted<'b, Iter<'a, Input, P, M>>>, taken: Seq<P::Output>) -> bool {
        let (x, y) = (*a.iterator.iter, *b.iterator.iter);
        &&& Iter::<'a, Input, P, M>::gave(x, y, taken) && taken.len() == a.iterator.left || Iter::<'a, Input, P, M>::ran(x, y, taken)
        &&& taken.len() <= a.iterator.left
        &&& *b.iterator.count == *a.iterator.count + taken.len()
        &&& *final(a.iterator.iter) == *final(b.iterator.iter) && *final(a.iterator.count) == *final(b.iterator.count)
}
pub broadcast proof fn lemma_count<'a, 'b, Input: Stream, P: Parser<Input>, M: ParseMode>(
    a: SuggestSizeHint<Counted<'b, Iter<'a, Input, P, M>>>, b: SuggestSizeHint<Counted<'b, Iter<'a, Input, P, M>>>, taken: Seq<P::Output>)
    requires #[trigger] drained(a, b, taken),
    ensures count_ran(a, b, taken),
{
    let m = choose|m: SuggestSizeHint<Counted<'b, Iter<'a, Input, P, M>>>| #[trigger] took(a, m, taken)
        && SuggestSizeHint::<Counted<'b, Iter<'a, Input, P, M>>>::step(m, b, None);
    lemma_counted(a, m, taken);
    let (x, z, y) = (*a.iterator.iter, *m.iterator.iter, *b.iterator.iter);
    lemma_took(x, z, taken);
    if m.iterator.left > 0 {
        assert(Iter::<'a, Input, P, M>::step(z, y, None));
        lemma_stop(x, z, y, taken);
    }
}

//@ item src/parser/repeat.rs pub struct CountMinMax<F, P>
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ subst _marker: PhantomData<fn\(\) -> F> => pub _marker: core::marker::PhantomData<F>
//@ end
impl<F, P> CountMinMax<F, P> {
    //@ fn src/parser/repeat.rs | impl<Input, P, F> Parser<Input> for CountMinMax<F, P> | parse_mode_impl
    //@ subst parse_mode_impl<M> => parse_mode_impl<Input: Stream, M>
    //@ subst &mut Self::PartialState => &mut (usize, bool, F, P::PartialState)
    //@ subst Self::Output => F
    //@ subst M: ParseMode => M: ParseMode, F: Extend<P::Output> + Default, P: Parser<Input>
    //@ subst self\.parser\.by_ref\(\)\.partial_iter\(mode, input, child_state\) => Iter::new(&mut self.parser, mode, input, child_state)
    //@ subst iter\.by_ref\(\)\.take\((\w+)\)\.inspect\(\|_\| \*count \+= 1\) => Counted { iter: &mut iter, left: \1, count: count }
    //@ subst elements.extend\((suggest_size_hint\(.*?\))\); => elements.extend(&mut \1);
    //@ subst StreamError::message_format\(format_args!\(.*?\)\); => StreamError::message_static_message("");
    //@ subst (iter\.into_result_fast\(elements\))\.map\(\|x\| \{(.*?)x\s*\}\) => { let r = \1; if r.is_ok() { \2 } r }
    //@ contract
        requires old(self).parser.wf(), old(state).0 <= old(self).max, old(self).min <= old(self).max,
        ensures ({
            let n = old(self).parser.runs().len() as int;
            let rs = final(self).parser.runs();
            let committed = !mode.first() && old(state).1 || commits(rs, n);
            &&& extends(rs, old(self).parser.runs())
            &&& final(self).min == old(self).min && final(self).max == old(self).max && final(state).0 <= old(self).max
            &&& exists|outs: Seq<P::Output>| {
                let last = rs.last();
                let total = old(state).0 + outs.len();
                // it stops at the maximum or at a failure
                &&& total <= old(self).max
                &&& #[trigger] successes(rs, n, old(input).at(), mode.first(), old(state).3, outs)
                &&& rs.len() == n + outs.len() && total == old(self).max || repetition(rs, n, old(input).at(), mode.first(), old(state).3, outs)
                &&& rs.len() > n + outs.len() && last.result is CommitErr ==> {
                    &&& r is CommitErr && (total >= old(self).min ==> r == ParseResult::<F, Input::Error>::CommitErr(last.result->CommitErr_0))
                    &&& final(input).at() == last.to
                    &&& final(state).0 == total && final(state).1 == committed
                    &&& final(state).2.items() == old(state).2.items() + outs
                }
                &&& !(rs.len() > n + outs.len() && last.result is CommitErr) && total < old(self).min ==> {
                    &&& r is CommitErr || !committed && r is PeekErr && final(state).0 == 0 && F::is_default(final(state).2) && final(input).at() == last.from
                }
                &&& !(rs.len() > n + outs.len() && last.result is CommitErr) && total >= old(self).min ==> r is CommitErr && rs.len() > n + outs.len() || {
                    &&& final(input).at() == if rs.len() > n + outs.len() { last.from } else { place(rs, n, outs.len() as int, old(input).at()) }
                    &&& output(r).items() == old(state).2.items() + outs
                    &&& if committed { r is CommitOk } else { r is PeekOk }
                    &&& final(state).0 == 0 && final(state).1 == false
                    &&& F::is_default(final(state).2)
                }
            }
        }),
    //@ start
        broadcast use {lemma_count};
    //@ end
}
fn main() {}
}
