//! C07 the end of a chunk is not the end of the input: a leaf parser that gives a final answer on a
//! partial input gives the same answer whatever follows, and otherwise waits and goes on as if it
//! had seen the whole input at once. Decided on the real slice and string streams.
use crate::model::{COMMIT_ERR, COMMIT_OK, PEEK_ERR, PEEK_OK};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::combinator::no_partial;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::stream::*;
use combine::*;

pub type B = MaybePartialStream<&'static [u8]>;
pub const N: usize = 4;
static mut DATA: [u8; N] = [0; N];

/// `len` tokens, each one of three that matter and one that does not.
pub fn data(len: usize) -> &'static [u8] {
    unsafe {
        let d = &mut *std::ptr::addr_of_mut!(DATA);
        let mut i = 0;
        while i < N {
            d[i] = b'a' + nd::below(4);
            i += 1;
        }
        &(&*std::ptr::addr_of!(DATA))[..len]
    }
}

fn kind<T, E>(r: &ParseResult<T, E>) -> u8 {
    match r {
        ParseResult::PeekOk(_) => PEEK_OK,
        ParseResult::CommitOk(_) => COMMIT_OK,
        ParseResult::PeekErr(_) => PEEK_ERR,
        ParseResult::CommitErr(_) => COMMIT_ERR,
    }
}

/// Runs a parser on the whole of the data and on the data in chunks, consumed data being dropped
/// in between as the decoders do.
pub fn relate<P: Parser<B>>(mk: impl Fn() -> P, all: &'static [u8], chunks: u8)
where
    P::Output: PartialEq,
{
    let mut one = MaybePartialStream(all, false);
    let a = mk().parse_stream(&mut one);
    let left = one.0.len();
    let mut p = mk();
    let mut state = Default::default();
    let mut at = 0;
    let mut limit = 0;
    let mut i = 1;
    let mut waited = false;
    loop {
        let partial = i < chunks;
        limit = if partial { nd::within(limit as u8, all.len() as u8) as usize } else { all.len() };
        let mut st = MaybePartialStream(&all[at..limit], partial);
        let b = p.parse_stream_partial(&mut st, &mut state);
        at = limit - st.0.len();
        let eoi = match &b {
            ParseResult::PeekErr(e) => e.error == UnexpectedParse::Eoi,
            ParseResult::CommitErr(e) => *e == UnexpectedParse::Eoi,
            _ => false,
        };
        if partial && eoi {
            i += 1;
            waited = true;
            continue;
        }
        check!(kind(&b) == kind(&a), "parsing in chunks has the outcome of parsing at once, commit status included");
        if let (ParseResult::PeekOk(x) | ParseResult::CommitOk(x), ParseResult::PeekOk(y) | ParseResult::CommitOk(y)) = (&a, &b) {
            check!(x == y, "parsing in chunks produces the output of parsing at once");
            check!(all.len() - at == left, "parsing in chunks consumes what parsing at once does");
            cover!(waited, "waited then matched");
        }
        return;
    }
}

fn two<P: Parser<B>>(mk: impl Fn() -> P)
where
    P::Output: PartialEq,
{
    let len = nd::below(N as u8 + 1) as usize;
    relate(mk, data(len), 2)
}
fn three<P: Parser<B>>(mk: impl Fn() -> P)
where
    P::Output: PartialEq,
{
    let len = nd::below(N as u8 + 1) as usize;
    relate(mk, data(len), 3)
}

harnesses! {
    [7, "inputs of up to 4 tokens in 2 chunks"] fn any_() { two(|| (any(), any())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn satisfy_() { two(|| satisfy(|c| c == b'a')); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn satisfy_map_() { two(|| satisfy_map(|c| if c == b'a' { Some(3u8) } else { None })); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn token_() { two(|| (token(b'a'), token(b'b'))); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn tokens_() { three(|| tokens(|l, r| l == r, "ab", b"ab".iter().cloned()).map(|_| ())); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn tokens_cmp_() { three(|| tokens_cmp(b"aba".iter().cloned(), |l, r| l == r).map(|_| ())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn bytes_() { two(|| byte::bytes(b"ab")); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn one_of_() { two(|| one_of(b"ab".iter().cloned())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn none_of_() { two(|| none_of(b"ab".iter().cloned())); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn eof_() { three(|| (token(b'a'), eof())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn optional_eof() { two(|| optional(eof())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn many_eof() { two(|| (skip_many(token(b'a')), eof())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn not_followed_by_() { two(|| (token(b'a'), not_followed_by(token(b'b')))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn look_ahead_() { two(|| (look_ahead((token(b'a'), token(b'b'))), any())); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn class() { two(|| byte::alpha_num()); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_() {
        let n = nd::below(4) as usize;
        three(|| range::take(n));
    }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_while_() { three(|| range::take_while(|c| c == b'a')); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_while1_() { three(|| range::take_while1(|c| c == b'a')); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn take_while_then() { two(|| (range::take_while1(|c| c == b'a'), range::take_while(|c| c == b'b'))); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn range_() { three(|| range::range(&b"ab"[..])); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_until_range_() { three(|| range::take_until_range(&b"ab"[..])); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_fn_() {
        three(|| range::take_fn(|r: &'static [u8]| {
            let mut i = 0;
            while i < r.len() {
                if r[i] == b'b' {
                    return range::TakeRange::Found(i);
                }
                i += 1;
            }
            range::TakeRange::NotFound(r.len())
        }));
    }
    /// Looking for two tokens at once: the last one may be the start of a match.
    [7, "inputs of up to 4 tokens in 3 chunks"] fn take_fn2() {
        three(|| range::take_fn(|r: &'static [u8]| {
            let mut i = 0;
            while i + 1 < r.len() {
                if r[i] == b'a' && r[i + 1] == b'b' {
                    return range::TakeRange::Found(i);
                }
                i += 1;
            }
            range::TakeRange::NotFound(r.len().saturating_sub(1))
        }));
    }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn recognize_() { two(|| range::recognize((token(b'a'), skip_many(token(b'b')), optional(token(b'c'))))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn recognize_with_value_() { two(|| range::recognize_with_value((any(), token(b'a'), any()).map(|t| t.2))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn recognize_tokens() { two(|| combinator::recognize::<Coll8, _, _>((token(b'a'), token(b'b'), skip_many(token(b'c'))))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn be_u16_() { two(|| byte::num::be_u16()); }
    [7, "inputs of up to 4 tokens in 3 chunks"] fn length_prefix_() { three(|| range::length_prefix(any().map(|c: u8| c - b'a'))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn crlf_like() { two(|| no_partial(satisfy(|c| c == b'a').with(satisfy(|c| c == b'b'))).or(satisfy(|c| c == b'c'))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn optional_ranges() { two(|| (optional(range::range(&b"ab"[..])), optional(range::take_while1(|c| c == b'a')))); }
    [7, "inputs of up to 4 tokens in 2 chunks"] fn value_unexpected() {
        two(|| any().then(|c| if c == b'a' { value(1u8).left() } else { unexpected_any("x").right() }));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Coll8 {
    n: usize,
    v: [u8; 5],
}
impl Extend<u8> for Coll8 {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = u8>,
    {
        for x in iter {
            self.v[self.n] = x;
            self.n += 1;
        }
    }
}
