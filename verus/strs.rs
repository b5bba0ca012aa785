// C10: src/stream/mod.rs, text
use vstd::prelude::*;
verus! {
//@ assume a predicate (FnMut) is a parameter that records the elements it is asked about and what it answered
pub trait Test<T>: Sized {
    spec fn asked(&self) -> Seq<(T, bool)>;
    fn ask(&mut self, t: T) -> (r: bool)
        ensures final(self).asked() == old(self).asked().push((t, r));
}
//@ assume str::chars, Chars::next, Chars::as_str, str::len, str::split_at and char::len_utf8 do what the standard library says (split_at only between characters)
pub uninterp spec fn size(c: char) -> nat;
/// The length of text in bytes
#[verifier::opaque]
pub open spec fn bytes(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { bytes(s.drop_last()) + size(s.last()) }
}
pub open spec fn upto(s: Seq<char>, i: int) -> Seq<char> { s.subrange(0, i) }
pub open spec fn behind(s: Seq<char>, i: int) -> Seq<char> { s.subrange(i, s.len() as int) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CharsOf<T> { t: T }
pub type Chars<'a> = CharsOf<&'a str>;
impl<'a> CharsOf<&'a str> {
    /// The text, and how many characters of it have been taken
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn taken(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).text() == old(self).text(),
            r is Some == (old(self).taken() < old(self).text().len()),
            r is Some ==> r->0 == old(self).text()[old(self).taken()] && final(self).taken() == old(self).taken() + 1,
            r is None ==> final(self).taken() == old(self).taken(),
            old(self).taken() >= 0,
    { unimplemented!() }
    /// as_str().len()
    #[verifier::external_body]
    pub fn left(&self) -> (r: usize)
        ensures bytes(self.text()) <= usize::MAX, r == bytes(self.text()) - bytes(upto(self.text(), self.taken())),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn as_str<'a>(c: &Chars<'a>) -> (r: &'a str)
    ensures r@ == behind(c.text(), c.taken()),
{ unimplemented!() }
#[verifier::external_body]
pub fn chars<'a>(s: &'a str) -> (r: Chars<'a>)
    ensures r.text() == s@, r.taken() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    ensures r == bytes(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn len_utf8(c: char) -> (r: usize)
    ensures r == size(c), r > 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn split_at<'a>(s: &'a str, i: usize) -> (r: (&'a str, &'a str))
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] bytes(upto(s@, k)) == i,
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] bytes(upto(s@, k)) == i ==> r.0@ == upto(s@, k) && r.1@ == behind(s@, k),
{ unimplemented!() }

//@ item src/error.rs pub enum StringStreamError
//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
/// From place `from` on the predicate was asked about each element in turn, up to i, and said yes.
#[verifier::opaque]
pub open spec fn yes(s: Seq<char>, before: Seq<(char, bool)>, after: Seq<(char, bool)>, from: int, i: int) -> bool {
    let n = before.len() as int;
    &&& 0 <= from <= i <= s.len()
    &&& after.len() == n + i - from
    &&& forall|k: int| 0 <= k < n ==> #[trigger] after[k] == before[k]
    &&& forall|k: int| n <= k < n + i - from ==> #[trigger] after[k] == (s[from + k - n], true)
}
/// And then, unless there are no more, no.
pub open spec fn scanned(s: Seq<char>, before: Seq<(char, bool)>, after: Seq<(char, bool)>, from: int, i: int) -> bool {
    if i == s.len() { yes(s, before, after, from, i) } else {
        after.len() > 0 && 0 <= i < s.len() && yes(s, before, after.drop_last(), from, i) && after.last() == (s[i], false)
    }
}
pub broadcast proof fn lemma_ask(s: Seq<char>, before: Seq<(char, bool)>, after: Seq<(char, bool)>, from: int, i: int, x: (char, bool))
    requires #[trigger] yes(s, before, after, from, i), i < s.len(), x.0 == s[i],
    ensures
        (#[trigger] after.push(x)).len() > 0,
        x.1 ==> yes(s, before, after.push(x), from, i + 1),
        !x.1 ==> scanned(s, before, after.push(x), from, i),
{
    reveal(yes);
    assert(after.push(x).drop_last() =~= after);
}
pub proof fn lemma_begin(s: Seq<char>, before: Seq<(char, bool)>, from: int)
    requires 0 <= from <= s.len(),
    ensures yes(s, before, before, from, from),
{
    reveal(yes);
}
pub proof fn lemma_upto(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures bytes(upto(s, i + 1)) == bytes(upto(s, i)) + size(s[i]),
{
    reveal(bytes);
    assert(upto(s, i + 1).drop_last() =~= upto(s, i));
}
pub proof fn lemma_all(s: Seq<char>)
    ensures upto(s, s.len() as int) == s,
{
    assert(upto(s, s.len() as int) =~= s);
}
//@ fn src/stream/mod.rs | | str_uncons_while
//@ subst F: FnMut\(char\) -> bool => F: Test<char>
//@ subst mut f: F => f: &mut F
//@ subst !f\( => !f.ask(
//@ subst slice\.len\(\) => str_len(*slice)
//@ subst chars\.as_str\(\)\.len\(\) => chars.left()
//@ subst c\.len_utf8\(\) => len_utf8(c)
//@ subst slice\.split_at\( => split_at(*slice, 
//@ subst let len = => let ghost k = if last_char_size == 0 { s.len() as int } else { chars.taken() - 1 }; proof { if last_char_size > 0 { lemma_upto(s, k); } } let len =
//@ subst let \(result, rest\) => assert(bytes(upto(s, k)) == len && 0 <= k <= s.len()); assert(scanned(s, old(f).asked(), f.asked(), from, k)); let (result, rest)
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::exec_allows_no_decreases_clause]
//@ contract
    requires chars.text() == old(slice)@, 0 <= chars.taken() <= old(slice)@.len(),
    ensures exists|k: int| {
        &&& #[trigger] scanned(old(slice)@, old(f).asked(), final(f).asked(), chars.taken(), k)
        &&& r@ == upto(old(slice)@, k) && final(slice)@ == behind(old(slice)@, k)
    },
//@ loop 0
    invariant_except_break
        last_char_size == 0, chars.text() == s, from <= chars.taken() <= s.len(),
        yes(s, old(f).asked(), f.asked(), from, chars.taken()),
    ensures
        slice@ == s, chars.text() == s,
        last_char_size == 0 ==> chars.taken() == s.len() && yes(s, old(f).asked(), f.asked(), from, chars.taken()),
        last_char_size > 0 ==> chars.taken() > from && last_char_size == size(s[chars.taken() - 1]) && chars.taken() <= s.len()
            && scanned(s, old(f).asked(), f.asked(), from, chars.taken() - 1),
//@ start
    broadcast use lemma_ask;
    let ghost s = slice@;
    let ghost from = chars.taken();
    proof { lemma_begin(s, f.asked(), from); lemma_all(s); }
//@ end
/// A scan from one on after a yes to the first element is a scan from zero on
pub proof fn lemma_shift(s: Seq<char>, before: Seq<(char, bool)>)
    ensures forall|after: Seq<(char, bool)>, i: int| s.len() > 0 && #[trigger] scanned(s, before.push((s[0], true)), after, 1, i) ==> i > 0 && scanned(s, before, after, 0, i),
{
    assert forall|after: Seq<(char, bool)>, i: int| s.len() > 0 && #[trigger] scanned(s, before.push((s[0], true)), after, 1, i) implies i > 0 && scanned(s, before, after, 0, i) by {
        reveal(yes);
        let mid = before.push((s[0], true));
        let all = if i == s.len() { after } else { after.drop_last() };
        assert forall|k: int| 0 <= k < before.len() implies #[trigger] all[k] == before[k] by { assert(mid[k] == before[k]); }
        assert(all[before.len() as int] == mid[before.len() as int]);
    }
}

/// Text is a stream
//@ fn src/stream/mod.rs | impl<'a> StreamOnce for &'a str | uncons
//@ subst fn uncons\(&mut self\) -> Result<char, StreamErrorFor<Self>> => fn uncons<'a>(this: &mut &'a str) -> Result<char, StringStreamError>
//@ subst self\.chars\(\) => chars(*this)
//@ subst chars\.as_str\(\) => as_str(&chars)
//@ subst \*self => *this
//@ contract
    ensures match r {
        Ok(t) => old(this)@.len() > 0 && seq![t] + final(this)@ =~= old(this)@,
        Err(_) => old(this)@.len() == 0 && *final(this) == *old(this),
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a> RangeStreamOnce for &'a str | uncons_while
//@ subst fn uncons_while<F>\(&mut self, f: F\) -> Result<&'a str, StreamErrorFor<Self>> => fn uncons_while<'a, F>(this: &mut &'a str, f: &mut F) -> Result<&'a str, StringStreamError>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<char>
//@ subst self\.chars\(\) => chars(*this)
//@ subst \(self => (this
//@ contract
    ensures r is Ok, exists|k: int| {
        &&& #[trigger] scanned(old(this)@, old(f).asked(), final(f).asked(), 0, k)
        &&& r->Ok_0@ == upto(old(this)@, k) && final(this)@ == behind(old(this)@, k)
    },
//@ end
//@ fn src/stream/mod.rs | impl<'a> RangeStreamOnce for &'a str | uncons_while1
//@ subst fn uncons_while1<F>\(&mut self, mut f: F\) -> ParseResult<Self::Range, StreamErrorFor<Self>> => fn uncons_while1<'a, F>(this: &mut &'a str, f: &mut F) -> ParseResult<&'a str, StringStreamError>
//@ subst F: FnMut\(Self::Token\) -> bool => F: Test<char>
//@ subst self\.chars\(\) => chars(*this)
//@ subst \(self => (this
//@ subst !f\( => !f.ask(
//@ contract
    ensures match r {
        CommitOk(t) => exists|k: int| {
            &&& k > 0 && #[trigger] scanned(old(this)@, old(f).asked(), final(f).asked(), 0, k)
            &&& t@ == upto(old(this)@, k) && final(this)@ == behind(old(this)@, k)
        },
        PeekErr(_) => final(this)@ == old(this)@ && scanned(old(this)@, old(f).asked(), final(f).asked(), 0, 0),
        _ => false,
    },
//@ start
    broadcast use lemma_ask;
    proof { lemma_begin(this@, f.asked(), 0); lemma_shift(this@, f.asked()); }
//@ end
}
fn main() {}
