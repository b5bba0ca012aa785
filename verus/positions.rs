// C13: src/stream/position.rs
use vstd::prelude::*;
verus! {
//@ assume str::chars gives the characters in order; lines and columns stay below 2^31 and token counts below 2^64
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CharsOf<T> { t: T }
impl<'a> CharsOf<&'a str> {
    pub uninterp spec fn left(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures r is Some == (old(self).left().len() > 0), r is None ==> final(self).left() == old(self).left(),
            r is Some ==> r->0 == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn chars<'a>(s: &'a str) -> (r: CharsOf<&'a str>)
    ensures r.left() == s@,
{ unimplemented!() }
/// A range of any kind
pub trait Range: Sized {
    spec fn units(&self) -> nat;
    fn len(&self) -> (r: usize)
        ensures r == self.units();
}

//@ item src/stream/position.rs pub struct SourcePosition
//@ subst pub struct => #[derive(Clone, Copy)] pub struct
//@ end
pub open spec fn moved(p: (int, int), line_feed: bool) -> (int, int) {
    if line_feed { (p.0 + 1, 1) } else { (p.0, p.1 + 1) }
}
/// Where the characters of s lead from p
pub open spec fn passed(p: (int, int), s: Seq<char>) -> (int, int)
    decreases s.len(),
{
    if s.len() == 0 { p } else { passed(moved(p, s[0] == '\n'), s.drop_first()) }
}
pub trait Positioner<T> {
    spec fn place(&self) -> (int, int);
    spec fn feeds(t: T) -> bool;
    fn update(&mut self, token: &T)
        requires old(self).place().0 < i32::MAX, old(self).place().1 < i32::MAX,
        ensures final(self).place() == moved(old(self).place(), Self::feeds(*token));
}
impl Positioner<char> for SourcePosition {
    open spec fn place(&self) -> (int, int) { (self.line as int, self.column as int) }
    open spec fn feeds(t: char) -> bool { t == '\n' }
    //@ fn src/stream/position.rs | impl Positioner<char> for SourcePosition | update
    //@ end
}
impl Positioner<u8> for SourcePosition {
    open spec fn place(&self) -> (int, int) { (self.line as int, self.column as int) }
    open spec fn feeds(t: u8) -> bool { t == 10 }
    //@ fn src/stream/position.rs | impl Positioner<u8> for SourcePosition | update
    //@ end
}
impl Default for SourcePosition {
    //@ fn src/stream/position.rs | impl Default for SourcePosition | default
    //@ contract
        ensures r.line == 1, r.column == 1,
    //@ end
}
impl SourcePosition {
    pub open spec fn at(&self) -> (int, int) { (self.line as int, self.column as int) }
    //@ fn src/stream/position.rs | impl<'a> RangePositioner<char, &'a str> for SourcePosition | update_range
    //@ subst &&'a str => &&str
    //@ subst for c in range\.chars\(\) \{ => let mut cs = chars(*range); while let Some(c) = cs.next() {
    //@ subst self\.update\( => Positioner::<char>::update(self, 
    //@ attr
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        requires old(self).line + range@.len() <= i32::MAX, old(self).column + range@.len() <= i32::MAX, old(self).line >= 0, old(self).column >= 0, range@.len() < i32::MAX,
        ensures final(self).at() == passed(old(self).at(), range@),
    //@ loop 0
        invariant
            passed(self.at(), cs.left()) == passed(old(self).at(), range@),
            self.line + cs.left().len() <= i32::MAX, self.column + cs.left().len() <= i32::MAX, cs.left().len() < i32::MAX, self.line >= 0, self.column >= 0,
        ensures
            passed(self.at(), cs.left()) == passed(old(self).at(), range@), cs.left().len() == 0,
    //@ end
}

//@ item src/stream/position.rs pub struct IndexPositioner
//@ subst IndexPositioner\(usize\) => IndexPositioner(pub usize)
//@ end
impl IndexPositioner {
    //@ fn src/stream/position.rs | impl<Item> Positioner<Item> for IndexPositioner | update
    //@ subst fn update\( => fn update<Item>(
    //@ contract
        requires old(self).0 < usize::MAX,
        ensures final(self).0 == old(self).0 + 1,
    //@ end
    //@ fn src/stream/position.rs | impl<Item> Positioner<Item> for IndexPositioner | position
    //@ contract
        ensures r == self.0,
    //@ end
    //@ fn src/stream/position.rs | impl IndexPositioner | new_with_position
    //@ contract
        ensures r.0 == position,
    //@ end
    //@ fn src/stream/position.rs | impl IndexPositioner | new
    //@ contract
        ensures r.0 == 0,
    //@ end
    //@ fn src/stream/position.rs | impl<Item, Range> RangePositioner<Item, Range> for IndexPositioner | update_range
    //@ subst fn update_range\( => fn update_range<R: Range>(
    //@ subst &Range\) => &R)
    //@ contract
        requires old(self).0 + range.units() <= usize::MAX,
        ensures final(self).0 == old(self).0 + range.units(),
    //@ end
}
}
fn main() {}
