// C14: src/stream/easy.rs
use vstd::prelude::*;
verus! {
//@ assume == on parts of errors is a fixed relation (C14's bounded checks look at the relation itself); cmp on positions too
//@ assume Iterator::all over a vector, Vec::retain and Vec::drain(..) do what the standard library says
pub struct OtherError { x: u8 }
pub enum Ordering { Less, Equal, Greater }
pub uninterp spec fn compared<P>(a: P, b: P) -> Ordering;
#[verifier::external_body]
pub fn cmp<P>(a: &P, b: &P) -> (r: Ordering)
    ensures r == compared(*a, *b),
{ unimplemented!() }
pub uninterp spec fn same<E>(a: E, b: E) -> bool;
#[verifier::external_body]
pub fn none_equal<E>(v: &Vec<E>, e: &E) -> (r: bool)
    ensures r == !holds(v@, *e),
{ unimplemented!() }
#[verifier::external_body]
pub fn retain<E, F: Fn(&E) -> bool>(v: &mut Vec<E>, f: F)
    requires forall|e: &E| #[trigger] f.requires((e,)),
    ensures forall|keep: spec_fn(E) -> bool| (forall|e: E, b: bool| #[trigger] f.ensures((&e,), b) ==> b == keep(e))
        ==> final(v)@ == #[trigger] old(v)@.filter(keep),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct Drain<E> { e: E }
impl<E> Drain<E> {
    pub uninterp spec fn left(&self) -> Seq<E>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<E>)
        ensures r is Some == (old(self).left().len() > 0), r is None ==> final(self).left() == old(self).left(),
            r is Some ==> r->0 == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn drain<E>(v: &mut Vec<E>) -> (r: Drain<E>)
    ensures r.left() == old(v)@,
{ unimplemented!() }

/// drain(..) of it all, which leaves it empty
#[verifier::external_body]
pub fn drain_all<E>(v: &mut Vec<E>) -> (r: Drain<E>)
    ensures r.left() == old(v)@, final(v)@.len() == 0,
{ unimplemented!() }
//@ item src/stream/easy.rs pub enum Info<T, R>
//@ item src/stream/easy.rs pub enum Error<T, R>
//@ subst Box<dyn StdError \+ Send \+ Sync> => OtherError
//@ end
//@ item src/stream/easy.rs pub struct Errors<T, R, P>

/// All but what was expected
pub open spec fn others<T, R>() -> spec_fn(Error<T, R>) -> bool { |e: Error<T, R>| !(e is Expected) }
pub open spec fn holds<E>(s: Seq<E>, e: E) -> bool {
    exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], e)
}
/// s with e, unless it is there already
pub open spec fn with_part<E>(s: Seq<E>, e: E) -> Seq<E> {
    if holds(s, e) { s } else { s.push(e) }
}
pub open spec fn with_parts<E>(s: Seq<E>, t: Seq<E>) -> Seq<E>
    decreases t.len(),
{
    if t.len() == 0 { s } else { with_parts(with_part(s, t[0]), t.drop_first()) }
}
/// What C14 says of the result: everything of both, what is added only once
pub proof fn lemma_everything<E>(s: Seq<E>, t: Seq<E>)
    requires forall|e: E| #[trigger] same(e, e),
    ensures ({
        let all = with_parts(s, t);
        &&& s.len() <= all.len() <= s.len() + t.len()
        &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] all[i] == s[i]
        &&& forall|i: int| 0 <= i < t.len() ==> holds(all, #[trigger] t[i])
        &&& forall|i: int, j: int| s.len() <= i < all.len() && 0 <= j < i ==> !same(#[trigger] all[j], #[trigger] all[i])
    }),
    decreases t.len(),
{
    if t.len() > 0 {
        let u = with_part(s, t[0]);
        let all = with_parts(s, t);
        lemma_everything(u, t.drop_first());
        assert(holds(u, t[0])) by {
            if !holds(s, t[0]) { assert(same(u[s.len() as int], t[0])); }
        }
        let k = choose|k: int| 0 <= k < u.len() && same(#[trigger] u[k], t[0]);
        assert(same(all[k], t[0]));
        assert forall|i: int| 0 <= i < t.len() implies holds(all, #[trigger] t[i]) by {
            if i > 0 { assert(t.drop_first()[i - 1] == t[i]); }
        }
        assert forall|i: int, j: int| s.len() <= i < all.len() && 0 <= j < i implies !same(#[trigger] all[j], #[trigger] all[i]) by {
            if i < u.len() {
                assert(i == s.len() && !holds(s, t[0]));
                assert(all[i] == u[i] && u[i] == t[0] && all[j] == u[j] && u[j] == s[j]);
            }
        }
    }
}
//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
/// The parser that adds its expectations, as a closure
pub trait Adds<E>: Sized {
    spec fn adds(self, before: Tracked<E>, after: Tracked<E>) -> bool;
    fn call(self, e: &mut Tracked<E>)
        ensures self.adds(*old(e), *final(e));
}
/// What was there before, and of what came after it all but what was expected
pub open spec fn replaced<T, R>(start: int, s: Seq<Error<T, R>>) -> Seq<Error<T, R>> {
    let n = if start < s.len() { start } else { s.len() as int };
    s.subrange(0, n) + s.subrange(n, s.len() as int).filter(others())
}
pub proof fn lemma_replaced<T, R>(start: int, s: Seq<Error<T, R>>, e: Error<T, R>)
    requires start >= 0,
    ensures replaced(start, s.push(e)) == if s.len() < start || !(e is Expected) { replaced(start, s).push(e) } else { replaced(start, s) },
{
    let t = s.push(e);
    let n = if start < s.len() { start } else { s.len() as int };
    let m = if start < t.len() { start } else { t.len() as int };
    if s.len() < start {
        assert(t.subrange(m, t.len() as int) =~= Seq::empty());
        assert(s.subrange(n, s.len() as int) =~= Seq::empty());
        reveal(Seq::filter);
        assert(replaced(start, t) =~= t);
        assert(replaced(start, s) =~= s);
    } else {
        assert(t.subrange(0, m) =~= s.subrange(0, n));
        let a = s.subrange(n, s.len() as int);
        let b = t.subrange(m, t.len() as int);
        assert(b =~= a.push(e));
        reveal(Seq::filter);
        assert(b.drop_last() =~= a);
        if !(e is Expected) {
            assert(replaced(start, t) =~= replaced(start, s).push(e));
        } else {
            assert(replaced(start, t) =~= replaced(start, s));
        }
    }
}
pub proof fn lemma_none<T, R>(start: int)
    requires start >= 0,
    ensures replaced(start, Seq::<Error<T, R>>::empty()) == Seq::<Error<T, R>>::empty(),
{
    reveal(Seq::filter);
    assert(replaced(start, Seq::<Error<T, R>>::empty()) =~= Seq::<Error<T, R>>::empty());
}
impl<T, R, P> Errors<T, R, P> {
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | from_errors
    //@ contract
        ensures r.position == position, r.errors == errors,
    //@ end
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | new
    //@ contract
        ensures r.position == position, r.errors@ == seq![error],
    //@ end
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | empty
    //@ contract
        ensures r.position == position, r.errors@.len() == 0,
    //@ end
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | add_error
    //@ subst where\s*T: PartialEq,\s*R: PartialEq, => where T: Sized,
    //@ subst self\.errors\.iter\(\)\.all\(\|err\| \*err != error\) => none_equal(&self.errors, &error)
    //@ contract
        ensures final(self).position == old(self).position, final(self).errors@ == with_part(old(self).errors@, error),
    //@ end
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | merge
    //@ subst fn merge\(mut self => fn merge(mut this: Self
    //@ subst \bself\b => this
    //@ subst where\s*P: Ord,\s*T: PartialEq,\s*R: PartialEq, => where T: Sized,
    //@ subst use std::cmp::Ordering; => let ghost at = this.position; let ghost mine = this.errors@; let ghost others = other.errors@;
    //@ subst this\.position\.cmp\(&other\.position\) => cmp(&this.position, &other.position)
    //@ subst for message in other\.errors\.drain\(\.\.\) \{ => let mut ms = drain(&mut other.errors); while let Some(message) = ms.next() {
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        ensures match compared(this.position, other.position) {
            Ordering::Less => r == other,
            Ordering::Greater => r == this,
            Ordering::Equal => r.position == this.position && r.errors@ == with_parts(this.errors@, other.errors@),
        },
    //@ loop 0
        invariant
            this.position == at,
            with_parts(this.errors@, ms.left()) == with_parts(mine, others),
        ensures
            this.position == at,
            this.errors@ == with_parts(mine, others),
    //@ end
    //@ fn src/stream/easy.rs | impl<T, R, P> Errors<T, R, P> { | set_expected
    //@ subst self\.errors\.retain\(\|e\| match \*e \{(.*?)\}\); => retain(&mut self.errors, |e: &Error<T, R>| -> (r: bool) ensures r == !(*e is Expected) { match *e {\1} });
    //@ contract
        ensures final(self).position == old(self).position,
            final(self).errors@ == old(self).errors@.filter(others()).push(Error::Expected(info)),
    //@ end
    //@ fn src/stream/easy.rs | re:for Errors<Item, Range, Position>\s+where\s+Item: PartialEq,\s+Range: PartialEq,\s+Position: Ord | clear_expected
    //@ subst self\.errors\.retain\(\|e\| match \*e \{(.*?)\n        \}\) => retain(&mut self.errors, |e: &Error<T, R>| -> (r: bool) ensures r == !(*e is Expected) { match *e {\1} })
    //@ contract
        ensures final(self).position == old(self).position,
            final(self).errors@ == old(self).errors@.filter(others()),
    //@ end
    //@ fn src/stream/easy.rs | re:for Errors<Item, Range, Position>\s+where\s+Item: PartialEq,\s+Range: PartialEq,\s+Position: Ord | set_expected
    //@ subst fn set_expected => fn set_expected_of
    //@ subst Self::StreamError => Error<T, R>
    //@ subst F: FnOnce\(&mut Tracked<Self>\) => F: Adds<Self>
    //@ subst f\(self_\); => f.call(self_); let ghost mid = *self_; let ghost mut done = Seq::<Error<T, R>>::empty();
    //@ subst self_\.error\.errors\.retain\(\|e\| \{(.*)\n        \}\); => let mut all = drain_all(&mut self_.error.errors); proof { lemma_none::<T, R>(start as int); } while let Some(x) = all.next() { let keep = { let e = &x; \1 }; proof { lemma_replaced(start as int, done, x); done = done.push(x); } if keep { self_.error.errors.push(x); } }
    //@ subst self_\.error\.add\(info\) => self_.error.add_error(info)
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        ensures exists|mid: Tracked<Self>| {
            &&& #[trigger] f.adds(*old(self_), mid)
            &&& final(self_).error.position == mid.error.position && final(self_).offset == mid.offset
            &&& final(self_).error.errors@ == with_part(replaced(old(self_).error.errors@.len() as int, mid.error.errors@), info)
        },
    //@ loop 0
        invariant
            f.adds(*old(self_), mid), start == old(self_).error.errors@.len(),
            self_.error.position == mid.error.position, self_.offset == mid.offset,
            done + all.left() == mid.error.errors@,
            i == if done.len() < start { done.len() as int } else { start as int },
            self_.error.errors@ == replaced(start as int, done),
        ensures
            self_.error.errors@ == replaced(start as int, mid.error.errors@),
    //@ end
}
}
fn main() {}
