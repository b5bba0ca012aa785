// C08: src/parser/token.rs, tokens in order and the end of the input
use vstd::prelude::*;
verus! {
pub trait StreamError<Token>: Sized {
    spec fn is_end(&self) -> bool;
    fn is_unexpected_end_of_input(&self) -> (r: bool)
        ensures r == self.is_end();
    fn unexpected_token(t: Token) -> Self;
}
pub trait ErrorInfo: Sized {}
impl<'a, E: ErrorInfo> ErrorInfo for &'a E {}
/// An error is at a position
pub trait ParseError<Token, Position>: Sized {
    type StreamError: StreamError<Token>;
    spec fn place(&self) -> Position;
    fn empty(position: Position) -> (r: Self)
        ensures r.place() == position;
    fn from_error(position: Position, err: Self::StreamError) -> (r: Self)
        ensures r.place() == position;
    fn set_position(&mut self, position: Position)
        ensures final(self).place() == position;
    fn add_expected<E: ErrorInfo>(&mut self, info: E)
        ensures final(self).place() == old(self).place();
}
pub type StreamErrorFor<S> = <<S as StreamOnce>::Error as ParseError<<S as StreamOnce>::Token, <S as StreamOnce>::Position>>::StreamError;
//@ assume a stream gives the end-of-input error exactly where no token is left or reading fails, and a reset that succeeds goes back to the checkpoint
pub trait StreamOnce: Sized {
    type Token;
    type Range;
    type Position;
    type Error: ParseError<Self::Token, Self::Position>;
    spec fn tokens(&self) -> Seq<Self::Token>;
    spec fn at(&self) -> int;
    spec fn place(&self) -> Self::Position;
    /// Resets never fail
    spec fn resets(&self) -> bool;
    /// Is there more behind what is here?
    spec fn partial(&self) -> bool;
    fn is_partial(&self) -> (r: bool)
        ensures r == self.partial();
    fn position(&self) -> (r: Self::Position)
        ensures r == self.place();
    fn uncons(&mut self) -> (r: Result<Self::Token, StreamErrorFor<Self>>)
        ensures
            final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(), final(self).resets() == old(self).resets(),
            match r {
                Ok(t) => 0 <= old(self).at() < old(self).tokens().len() && t == old(self).tokens()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                Err(e) => final(self).at() == old(self).at() && (e.is_end() ==> old(self).at() >= old(self).tokens().len()),
            };
}
pub trait Stream: StreamOnce {
    type Checkpoint;
    spec fn cp(c: Self::Checkpoint) -> int;
    fn checkpoint(&self) -> (r: Self::Checkpoint)
        ensures Self::cp(r) == self.at();
    fn reset(&mut self, checkpoint: Self::Checkpoint) -> (r: Result<(), Self::Error>)
        ensures final(self).tokens() == old(self).tokens(), final(self).partial() == old(self).partial(), final(self).resets() == old(self).resets(),
            r is Ok ==> final(self).at() == Self::cp(checkpoint), old(self).resets() ==> r is Ok;
}
//@ assume the comparison given to tokens and tokens_cmp is a parameter that records what it is asked and what it answered
pub trait Compare<A, B>: Sized {
    spec fn asked(&self) -> Seq<(A, B, bool)>;
    fn compare(&mut self, a: A, b: B) -> (r: bool)
        ensures final(self).asked() == old(self).asked().push((a, b, r));
}
//@ assume cloning a token gives an equal token, cloning the expected tokens gives the same ones, and iterating gives them in order
pub trait Expected: Sized {
    type Item;
    spec fn all(&self) -> Seq<Self::Item>;
    fn clone(&self) -> (r: Self)
        ensures r.all() == self.all();
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IntoIter<T> { t: T }
impl<T> IntoIter<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
                None => old(self).left().len() == 0,
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn into_iter<T: Expected>(t: T) -> (r: IntoIter<T::Item>)
    ensures r.left() == t.all(),
{ unimplemented!() }
#[verifier::external_body]
pub fn copy<T>(t: &T) -> (r: T)
    ensures r == *t,
{ unimplemented!() }

//@ item src/error.rs pub struct Tracked<E>
//@ item src/lib.rs pub struct ErrorOffset
//@ item src/error.rs pub enum ParseResult<T, E>
use ParseResult::*;
pub mod lib { pub mod marker { pub use core::marker::PhantomData; } }
use lib::marker::PhantomData;
impl<E> Tracked<E> {
    //@ fn src/error.rs | impl<E> From<E> for Tracked<E> | from
    //@ contract
        ensures r.error == error,
    //@ end
}
}
verus! {
//@ item src/error.rs pub enum Commit<T>
//@ subst pub enum => #[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)] pub enum
//@ end
}
//@ item src/error.rs macro_rules! ctry
//@ subst \$crate::error::(\w) => \1
//@ subst err\.into\(\) => err
//@ end
verus! {
impl<T, E> ParseResult<T, E> {
    //@ fn src/error.rs | impl<T, E> ParseResult<T, E> | is_ok
    //@ contract
        ensures r == (self is CommitOk || self is PeekOk),
    //@ end
}
/// ResultExt::committed
#[verifier::external_body]
pub fn committed_<T, E>(x: Result<T, E>) -> (r: ParseResult<T, E>)
    ensures r == (match x { Ok(t) => CommitOk(t), Err(e) => CommitErr(e) }),
{ unimplemented!() }

//@ fn src/stream/mod.rs | | wrap_stream_error
//@ subst <Input::Error as ParseError<.*?>>::StreamError => StreamErrorFor<Input>
//@ subst Input: \?Sized \+ StreamOnce \+ Positioned => Input: Stream
//@ subst err\.into\(\) => Tracked::from(err)
//@ contract
    ensures
        input.partial() ==> r is CommitErr && r->CommitErr_0.place() == input.place(),
        !input.partial() ==> r is PeekErr && r->PeekErr_0.error.place() == input.place(),
//@ end
//@ fn src/stream/mod.rs | | uncons
//@ subst Input: \?Sized \+ Stream => Input: Stream
//@ contract
    ensures
        final(input).tokens() == old(input).tokens(), final(input).partial() == old(input).partial(), final(input).resets() == old(input).resets(),
        match r {
            CommitOk(t) => 0 <= old(input).at() < old(input).tokens().len() && t == old(input).tokens()[old(input).at()]
                && final(input).at() == old(input).at() + 1,
            CommitErr(_) => old(input).partial() && final(input).at() == old(input).at(),
            PeekErr(_) => !old(input).partial() && final(input).at() == old(input).at(),
            PeekOk(_) => false,
        },
//@ end

/// The first n expected tokens were compared with the first n of the input, each one once and in order,
/// and all but possibly the last one were the same
pub open spec fn compared<A, B>(before: Seq<(A, B, bool)>, after: Seq<(A, B, bool)>, expected: Seq<A>, tokens: Seq<B>, at: int, n: int) -> bool {
    &&& 0 <= n <= expected.len() && (n > 0 ==> 0 <= at && at + n <= tokens.len())
    &&& after.len() == before.len() + n
    &&& forall|i: int| 0 <= i < before.len() ==> after[i] == before[i]
    &&& forall|i: int| before.len() <= i < after.len() ==> (#[trigger] after[i]).0 == expected[i - before.len()] && after[i].1 == tokens[at + i - before.len()]
    &&& forall|i: int| before.len() <= i < after.len() - 1 ==> (#[trigger] after[i]).2
}
pub open spec fn last_same<A, B>(before: Seq<(A, B, bool)>, after: Seq<(A, B, bool)>) -> bool {
    after.len() > before.len() ==> after.last().2
}
/// What tokens and tokens_cmp do
pub open spec fn in_order<A, B, T: Expected<Item = A>, E: ParseError<B, P>, P>(before: Seq<(A, B, bool)>, after: Seq<(A, B, bool)>, expected: Seq<A>,
    tokens: Seq<B>, from: int, to: int, place: P, partial: bool, resets: bool, r: ParseResult<T, E>) -> bool {
    let n = after.len() - before.len();
    &&& compared(before, after, expected, tokens, from, n)
    &&& match r {
        // every token matched, and exactly these were consumed
        CommitOk(t) => n == expected.len() && n > 0 && last_same(before, after) && to == from + n && t.all() == expected,
        PeekOk(t) => n == expected.len() && n == 0 && to == from && t.all() == expected,
        // the first token was another one, or is not there
        PeekErr(e) => e.error.place() == place
            && (n == 0 && !partial && expected.len() > 0 || n == 1 && !after.last().2),
        // a later one was another one or is not there, or more input is needed and everything is read again
        CommitErr(e) => n >= 2 && !after.last().2 && e.place() == place
            || !partial && 0 < n < expected.len() && last_same(before, after) && e.place() == place
            || partial && n < expected.len() && last_same(before, after) && (resets ==> e.place() == place && to == from),
    }
}

//@ item src/parser/token.rs pub struct Tokens<C, E, T, Input>
//@ subst where\s*Input: Stream, => where Input: Stream, T: Expected, C: Compare<T::Item, Input::Token>,
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ end
impl<Input: Stream, C: Compare<T::Item, Input::Token>, E: ErrorInfo, T: Expected> Tokens<C, E, T, Input> {
    //@ fn src/parser/token.rs | impl<Input, C, E, T> Parser<Input> for Tokens<C, E, T, Input> | parse_lazy
    //@ subst for c in self\.tokens\.clone\(\) \{ => let mut ts = into_iter(self.tokens.clone()); while let Some(c) = ts.next() {
    //@ subst crate::stream::uncons => uncons
    //@ subst (?#opt)\(self\.cmp\)\( => self.cmp.compare(
    //@ subst other\.clone\(\) => copy(&other)
    //@ subst <Input as StreamOnce>::Error::from_error => Input::Error::from_error
    //@ subst <Input as StreamOnce>::Error::empty => Input::Error::empty
    //@ subst StreamError::unexpected_token => <StreamErrorFor<Input> as StreamError<Input::Token>>::unexpected_token
    //@ subst (?#opt)input\.reset\(before\)\.committed\(\) => committed_(input.reset(before))
    //@ subst PeekErr\((.*?)\.into\(\)\) => PeekErr(Tracked::from(\1))
    //@ attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        ensures
            final(input).tokens() == old(input).tokens(),
            final(self).tokens == old(self).tokens,
            in_order(old(self).cmp.asked(), final(self).cmp.asked(), old(self).tokens.all(), old(input).tokens(),
                old(input).at(), final(input).at(), old(input).place(), old(input).partial(), old(input).resets(), r),
    //@ loop 0
            invariant
                ({
                    let n = self.cmp.asked().len() - old(self).cmp.asked().len();
                    &&& n >= 0
                    &&& compared(old(self).cmp.asked(), self.cmp.asked(), old(self).tokens.all(), old(input).tokens(), old(input).at(), n)
                    &&& last_same(old(self).cmp.asked(), self.cmp.asked())
                    &&& ts.left() == old(self).tokens.all().skip(n)
                    &&& committed == (n > 0)
                    &&& input.at() == old(input).at() + n
                }),
                input.tokens() == old(input).tokens(), input.partial() == old(input).partial(), input.resets() == old(input).resets(),
                self.tokens == old(self).tokens,
    //@ end
}
//@ item src/parser/token.rs pub struct TokensCmp<C, T, Input>
//@ subst where\s*Input: Stream, => where Input: Stream, T: Expected, C: Compare<T::Item, Input::Token>,
//@ subst \n    ([a-z]\w*: [^\n]*,) => \n    pub \1
//@ end
impl<Input: Stream, C: Compare<T::Item, Input::Token>, T: Expected> TokensCmp<C, T, Input> {
    //@ fn src/parser/token.rs | impl<Input, C, T> Parser<Input> for TokensCmp<C, T, Input> | parse_lazy
    //@ subst for c in self\.tokens\.clone\(\) \{ => let mut ts = into_iter(self.tokens.clone()); while let Some(c) = ts.next() {
    //@ subst crate::stream::uncons => uncons
    //@ subst (?#opt)\(self\.cmp\)\( => self.cmp.compare(
    //@ subst other\.clone\(\) => copy(&other)
    //@ subst <Input as StreamOnce>::Error::from_error => Input::Error::from_error
    //@ subst <Input as StreamOnce>::Error::empty => Input::Error::empty
    //@ subst StreamError::unexpected_token => <StreamErrorFor<Input> as StreamError<Input::Token>>::unexpected_token
    //@ subst (?#opt)input\.reset\(before\)\.committed\(\) => committed_(input.reset(before))
    //@ subst PeekErr\((<|Input)(.*?)\.into\(\)\) => PeekErr(Tracked::from(\1\2))
    //@ attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
    //@ contract
        ensures
            final(input).tokens() == old(input).tokens(),
            final(self).tokens == old(self).tokens,
            in_order(old(self).cmp.asked(), final(self).cmp.asked(), old(self).tokens.all(), old(input).tokens(),
                old(input).at(), final(input).at(), old(input).place(), old(input).partial(), old(input).resets(), r),
    //@ loop 0
            invariant
                ({
                    let n = self.cmp.asked().len() - old(self).cmp.asked().len();
                    &&& n >= 0
                    &&& compared(old(self).cmp.asked(), self.cmp.asked(), old(self).tokens.all(), old(input).tokens(), old(input).at(), n)
                    &&& last_same(old(self).cmp.asked(), self.cmp.asked())
                    &&& ts.left() == old(self).tokens.all().skip(n)
                    &&& committed == (n > 0)
                    &&& input.at() == old(input).at() + n
                }),
                input.tokens() == old(input).tokens(), input.partial() == old(input).partial(), input.resets() == old(input).resets(),
                self.tokens == old(self).tokens,
    //@ end
}
}
fn main() {}
