// C10: src/stream/mod.rs, slices
use vstd::prelude::*;
verus! {
//@ assume a predicate (FnMut) is a parameter that records the elements it is asked about and what it answered
pub trait Test<T>: Sized {
    spec fn asked(&self) -> Seq<(T, bool)>;
    fn ask(&mut self, t: T) -> (r: bool)
        ensures final(self).asked() == old(self).asked().push((t, r));
    fn ask_ref(&mut self, t: &T) -> (r: bool)
        ensures final(self).asked() == old(self).asked().push((*t, r));
}
//@ assume a clone of an element is equal to it
pub trait Element: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
//@ assume slice::get_unchecked, get, first, split_first and split_at do what the standard library says (get_unchecked only below the length)
#[verifier::external_body]
pub fn get_unchecked<'a, T>(s: &'a [T], i: usize) -> (r: &'a T)
    requires i < s@.len(),
    ensures *r == s@[i as int],
{ unimplemented!() }
#[verifier::external_body]
pub fn get<'a, T>(s: &'a [T], i: usize) -> (r: Option<&'a T>)
    ensures r is Some == (i < s@.len()), r is Some ==> *r->0 == s@[i as int],
{ unimplemented!() }
#[verifier::external_body]
pub fn first<'a, T>(s: &'a [T]) -> (r: Option<&'a T>)
    ensures r is Some == (0 < s@.len()), r is Some ==> *r->0 == s@[0],
{ unimplemented!() }
#[verifier::external_body]
pub fn split_at<'a, T>(s: &'a [T], i: usize) -> (r: (&'a [T], &'a [T]))
    requires i <= s@.len(),
    ensures r.0@ == s@.subrange(0, i as int), r.1@ == s@.subrange(i as int, s@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn split_first<'a, T>(s: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures r is Some == (0 < s@.len()), r is Some ==> *(r->0).0 == s@[0] && (r->0).1@ == s@.subrange(1, s@.len() as int),
{ unimplemented!() }

//@ item src/error.rs pub enum UnexpectedParse
//@ subst pub enum => pub enum
//@ end
//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
//@ item src/stream/mod.rs enum UnconsStart
//@ subst enum => #[derive(Copy, Clone)] enum
//@ end

/// From place `from` on the predicate was asked about each element in turn, up to i, and said yes.
#[verifier::opaque]
pub open spec fn yes<T>(s: Seq<T>, before: Seq<(T, bool)>, after: Seq<(T, bool)>, from: int, i: int) -> bool {
    let n = before.len() as int;
    &&& 0 <= from <= i <= s.len()
    &&& after.len() == n + i - from
    &&& forall|k: int| 0 <= k < n ==> #[trigger] after[k] == before[k]
    &&& forall|k: int| n <= k < n + i - from ==> #[trigger] after[k] == (s[from + k - n], true)
}
/// And then, unless there are no more, no.
pub open spec fn scanned<T>(s: Seq<T>, before: Seq<(T, bool)>, after: Seq<(T, bool)>, from: int, i: int) -> bool {
    if i == s.len() { yes(s, before, after, from, i) } else {
        after.len() > 0 && 0 <= i < s.len() && yes(s, before, after.drop_last(), from, i) && after.last() == (s[i], false)
    }
}
pub broadcast proof fn lemma_ask<T>(s: Seq<T>, before: Seq<(T, bool)>, after: Seq<(T, bool)>, from: int, i: int, x: (T, bool))
    requires #[trigger] yes(s, before, after, from, i), i < s.len(), x.0 == s[i],
    ensures
        (#[trigger] after.push(x)).len() > 0,
        x.1 ==> yes(s, before, after.push(x), from, i + 1),
        !x.1 ==> scanned(s, before, after.push(x), from, i),
{
    reveal(yes);
    assert(after.push(x).drop_last() =~= after);
}
pub proof fn lemma_begin<T>(s: Seq<T>, before: Seq<(T, bool)>, from: int)
    requires 0 <= from <= s.len(),
    ensures yes(s, before, before, from, from),
{
    reveal(yes);
}
//@ fn src/stream/mod.rs | | slice_uncons_while
//@ subst T: Clone => T: Element
//@ subst F: FnMut\(T\) -> bool => F: Test<T>
//@ subst mut f: F => f: &mut F
//@ subst if !f\( => if !f.ask(
//@ subst unsafe \{ slice\.get_unchecked\(i\)\.clone\(\) \} => get_unchecked(*slice, i).clone()
//@ subst slice\.get\(i\) => get(*slice, i)
//@ subst slice\.split_at\(i\) => split_at(*slice, i)
//@ subst debug_assert!\(len >= i, ""\); => assert(len >= i);
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ contract
    requires start is One ==> old(slice)@.len() >= 1,
    ensures ({
        let from = if start is One { 1int } else { 0 };
        &&& r@ + final(slice)@ =~= old(slice)@
        &&& scanned(old(slice)@, old(f).asked(), final(f).asked(), from, r@.len() as int)
    }),
//@ loop 0
    invariant_except_break
        slice@ == s, i <= len, len == slice@.len(),
        !found, yes(s, old(f).asked(), f.asked(), from, i as int),
    ensures
        found ==> scanned(s, old(f).asked(), f.asked(), from, i as int),
        !found ==> yes(s, old(f).asked(), f.asked(), from, i as int),
        i <= len,
    decreases len - i,
//@ loop 1
    invariant_except_break
        slice@ == s, i <= len, len == slice@.len(),
        yes(s, old(f).asked(), f.asked(), from, i as int),
    ensures
        scanned(s, old(f).asked(), f.asked(), from, i as int),
    decreases len - i,
//@ start
    broadcast use lemma_ask;
    let ghost s = slice@;
    let ghost from = if start is One { 1int } else { 0 };
    proof { lemma_begin(s, f.asked(), from); }
//@ end
//@ fn src/stream/mod.rs | | slice_uncons_while_ref
//@ subst F: FnMut\(&'a T\) -> bool => F: Test<T>
//@ subst mut f: F => f: &mut F
//@ subst if !f\( => if !f.ask_ref(
//@ subst unsafe \{ slice\.get_unchecked\(i\) \} => get_unchecked(*slice, i)
//@ subst slice\.get\(i\) => get(*slice, i)
//@ subst slice\.split_at\(i\) => split_at(*slice, i)
//@ subst debug_assert!\(len >= i, ""\); => assert(len >= i);
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ contract
    requires start is One ==> old(slice)@.len() >= 1,
    ensures ({
        let from = if start is One { 1int } else { 0 };
        &&& r@ + final(slice)@ =~= old(slice)@
        &&& scanned(old(slice)@, old(f).asked(), final(f).asked(), from, r@.len() as int)
    }),
//@ loop 0
    invariant_except_break
        slice@ == s, i <= len, len == slice@.len(),
        !found, yes(s, old(f).asked(), f.asked(), from, i as int),
    ensures
        found ==> scanned(s, old(f).asked(), f.asked(), from, i as int),
        !found ==> yes(s, old(f).asked(), f.asked(), from, i as int),
        i <= len,
    decreases len - i,
//@ loop 1
    invariant_except_break
        slice@ == s, i <= len, len == slice@.len(),
        yes(s, old(f).asked(), f.asked(), from, i as int),
    ensures
        scanned(s, old(f).asked(), f.asked(), from, i as int),
    decreases len - i,
//@ start
    broadcast use lemma_ask;
    let ghost s = slice@;
    let ghost from = if start is One { 1int } else { 0 };
    proof { lemma_begin(s, f.asked(), from); }
//@ end

/// A slice is a stream
//@ fn src/stream/mod.rs | impl<'a, T> StreamOnce for &'a [T] | uncons
//@ subst fn uncons\(&mut self\) -> Result<T, StreamErrorFor<Self>> => fn uncons<'a, T: Element>(this: &mut &'a [T]) -> Result<T, UnexpectedParse>
//@ subst self\.split_first\(\) => split_first(*this)
//@ subst \*self => *this
//@ contract
    ensures match r {
        Ok(t) => old(this)@.len() > 0 && seq![t] + final(this)@ =~= old(this)@,
        Err(_) => old(this)@.len() == 0 && *final(this) == *old(this),
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for &'a [T] | uncons_range
//@ subst fn uncons_range\(&mut self, size: usize\) -> Result<&'a \[T\], StreamErrorFor<Self>> => fn uncons_range<'a, T>(this: &mut &'a [T], size: usize) -> Result<&'a [T], UnexpectedParse>
//@ subst self\.split_at\( => split_at(*this, 
//@ subst \*self => *this
//@ subst self\.len => this.len
//@ contract
    ensures match r {
        Ok(t) => t@.len() == size && t@ + final(this)@ =~= old(this)@,
        Err(_) => old(this)@.len() < size && *final(this) == *old(this),
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for &'a [T] | uncons_while
//@ subst fn uncons_while<F>\(&mut self, f: F\) -> Result<&'a \[T\], StreamErrorFor<Self>> => fn uncons_while<'a, T: Element, F>(this: &mut &'a [T], f: &mut F) -> Result<&'a [T], UnexpectedParse>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<T>
//@ subst \(self => (this
//@ contract
    ensures r is Ok, r->Ok_0@ + final(this)@ =~= old(this)@, scanned(old(this)@, old(f).asked(), final(f).asked(), 0, r->Ok_0@.len() as int),
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for &'a [T] | uncons_while1
//@ subst fn uncons_while1<F>\(&mut self, mut f: F\) -> ParseResult<Self::Range, StreamErrorFor<Self>> => fn uncons_while1<'a, T: Element, F>(this: &mut &'a [T], f: &mut F) -> ParseResult<&'a [T], UnexpectedParse>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<T>
//@ subst \(self => (this
//@ subst self\.first\(\) => first(*this)
//@ subst if !f\( => if !f.ask(
//@ contract
    ensures while1(old(this)@, final(this)@, r, old(f).asked(), final(f).asked()),
//@ start
    broadcast use lemma_ask;
    proof { lemma_begin(this@, f.asked(), 0); lemma_shift(this@, f.asked()); }
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for &'a [T] | distance
//@ subst fn distance\(&self, end: &Self\) => fn distance<'a, T>(this: &&'a [T], end: &&'a [T])
//@ subst self => this
//@ contract
    requires this@.len() <= end@.len(),
    ensures r == end@.len() - this@.len(),
//@ end

pub open spec fn while1<T>(s: Seq<T>, rest: Seq<T>, r: ParseResult<&[T], UnexpectedParse>, before: Seq<(T, bool)>, after: Seq<(T, bool)>) -> bool {
    match r {
        CommitOk(t) => t@.len() > 0 && t@ + rest =~= s && scanned(s, before, after, 0, t@.len() as int),
        PeekErr(_) => rest == s && scanned(s, before, after, 0, 0),
        _ => false,
    }
}
/// A scan from one on after a yes to the first element is a scan from zero on
pub proof fn lemma_shift<T>(s: Seq<T>, before: Seq<(T, bool)>)
    ensures forall|after: Seq<(T, bool)>, i: int| s.len() > 0 && #[trigger] scanned(s, before.push((s[0], true)), after, 1, i) ==> i > 0 && scanned(s, before, after, 0, i),
{
    assert forall|after: Seq<(T, bool)>, i: int| s.len() > 0 && #[trigger] scanned(s, before.push((s[0], true)), after, 1, i) implies i > 0 && scanned(s, before, after, 0, i) by {
        reveal(yes);
        let mid = before.push((s[0], true));
        let all = if i == s.len() { after } else { after.drop_last() };
        assert forall|k: int| 0 <= k < before.len() implies #[trigger] all[k] == before[k] by { assert(mid[k] == before[k]); }
        assert(all[before.len() as int] == mid[before.len() as int]);
    }
}

//@ item src/stream/mod.rs pub struct SliceStream<'a, T>
//@ fn src/stream/mod.rs | impl<'a, T> StreamOnce for SliceStream<'a, T> | uncons
//@ subst fn uncons\(&mut self\) -> Result<&'a T, StreamErrorFor<Self>> => fn uncons_ref<'a, T>(this: &mut SliceStream<'a, T>) -> Result<&'a T, UnexpectedParse>
//@ subst self\.0\.split_first\(\) => split_first(this.0)
//@ subst self\.0 => this.0
//@ contract
    ensures match r {
        Ok(t) => old(this).0@.len() > 0 && seq![*t] + final(this).0@ =~= old(this).0@,
        Err(_) => old(this).0@.len() == 0 && *final(this) == *old(this),
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for SliceStream<'a, T> | uncons_range
//@ subst fn uncons_range\(&mut self, size: usize\) -> Result<&'a \[T\], StreamErrorFor<Self>> => fn uncons_range_ref<'a, T>(this: &mut SliceStream<'a, T>, size: usize) -> Result<&'a [T], UnexpectedParse>
//@ subst self\.0\.split_at\( => split_at(this.0, 
//@ subst self\.0 => this.0
//@ contract
    ensures match r {
        Ok(t) => t@.len() == size && t@ + final(this).0@ =~= old(this).0@,
        Err(_) => old(this).0@.len() < size && *final(this) == *old(this),
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for SliceStream<'a, T> | uncons_while
//@ subst fn uncons_while<F>\(&mut self, f: F\) -> Result<&'a \[T\], StreamErrorFor<Self>> => fn uncons_while_ref<'a, T, F>(this: &mut SliceStream<'a, T>, f: &mut F) -> Result<&'a [T], UnexpectedParse>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<T>
//@ subst self\.0 => this.0
//@ contract
    ensures r is Ok, r->Ok_0@ + final(this).0@ =~= old(this).0@, scanned(old(this).0@, old(f).asked(), final(f).asked(), 0, r->Ok_0@.len() as int),
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for SliceStream<'a, T> | uncons_while1
//@ subst fn uncons_while1<F>\(&mut self, mut f: F\) -> ParseResult<Self::Range, StreamErrorFor<Self>> => fn uncons_while1_ref<'a, T, F>(this: &mut SliceStream<'a, T>, f: &mut F) -> ParseResult<&'a [T], UnexpectedParse>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<T>
//@ subst self\.0\.first\(\) => first(this.0)
//@ subst self\.0 => this.0
//@ subst if !f\( => if !f.ask_ref(
//@ contract
    ensures while1(old(this).0@, final(this).0@, r, old(f).asked(), final(f).asked()),
//@ start
    broadcast use lemma_ask;
    proof { lemma_begin(this.0@, f.asked(), 0); lemma_shift(this.0@, f.asked()); }
//@ end
//@ fn src/stream/mod.rs | impl<'a, T> RangeStreamOnce for SliceStream<'a, T> | distance
//@ subst fn distance\(&self, end: &Self\) => fn distance_ref<'a, T>(this: &SliceStream<'a, T>, end: &SliceStream<'a, T>)
//@ subst self => this
//@ contract
    requires this.0@.len() <= end.0@.len(),
    ensures r == end.0@.len() - this.0@.len(),
//@ end
}
fn main() {}
