//! C08 single token, byte and character class parsers accept exactly what they document.
use crate::model::{COMMIT_ERR, COMMIT_OK, PEEK_ERR, PEEK_OK};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::token::*;
use combine::parser::{byte, char};
use combine::stream::*;
use combine::*;

/// A parse error that only remembers whether the input ended.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Er(pub bool);
impl<T, R> StreamError<T, R> for Er {
    fn unexpected_token(_: T) -> Self {
        Er(false)
    }
    fn unexpected_range(_: R) -> Self {
        Er(false)
    }
    fn unexpected_format<U: std::fmt::Display>(_: U) -> Self {
        Er(false)
    }
    fn expected_token(_: T) -> Self {
        Er(false)
    }
    fn expected_range(_: R) -> Self {
        Er(false)
    }
    fn expected_format<U: std::fmt::Display>(_: U) -> Self {
        Er(false)
    }
    fn message_token(_: T) -> Self {
        Er(false)
    }
    fn message_range(_: R) -> Self {
        Er(false)
    }
    fn message_format<U: std::fmt::Display>(_: U) -> Self {
        Er(false)
    }
    fn end_of_input() -> Self {
        Er(true)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0
    }
    fn into_other<U: StreamError<T, R>>(self) -> U {
        if self.0 {
            U::end_of_input()
        } else {
            U::unexpected_static_message("x")
        }
    }
}
impl<T, R, P: Default> ParseError<T, R, P> for Er {
    type StreamError = Er;
    fn empty(_: P) -> Self {
        Er(false)
    }
    fn set_position(&mut self, _: P) {}
    fn add(&mut self, e: Er) {
        self.0 |= e.0
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(self_: &mut Tracked<Self>, _: Er, f: F) {
        f(self_)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0
    }
    fn into_other<U: ParseError<T, R, P>>(self) -> U {
        U::from_error(P::default(), StreamError::<T, R>::into_other(self))
    }
}

/// An arbitrary stream of up to three tokens; leaf parsers look no further.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ts<T> {
    pub t: [T; 3],
    pub pos: u8,
    pub limit: u8,
}
impl<T: Copy + PartialEq> StreamOnce for Ts<T> {
    type Token = T;
    type Range = T;
    type Position = u8;
    type Error = Er;
    fn uncons(&mut self) -> Result<T, Er> {
        if self.pos < self.limit {
            self.pos += 1;
            Ok(self.t[self.pos as usize - 1])
        } else {
            Err(Er(true))
        }
    }
}
impl<T: Copy + PartialEq> Positioned for Ts<T> {
    fn position(&self) -> u8 {
        self.pos
    }
}
impl<T: Copy + PartialEq> ResetStream for Ts<T> {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        self.pos
    }
    fn reset(&mut self, c: u8) -> Result<(), Er> {
        self.pos = c;
        Ok(())
    }
}
fn bytes() -> Ts<u8> {
    Ts { t: [nd::u8(), nd::u8(), nd::u8()], pos: 0, limit: nd::below(4) }
}
fn chars() -> Ts<char> {
    Ts { t: [nd::char(), nd::char(), nd::char()], pos: 0, limit: nd::below(4) }
}

pub fn kind<T, E>(r: &ParseResult<T, E>) -> u8 {
    match r {
        ParseResult::PeekOk(_) => PEEK_OK,
        ParseResult::CommitOk(_) => COMMIT_OK,
        ParseResult::PeekErr(_) => PEEK_ERR,
        ParseResult::CommitErr(_) => COMMIT_ERR,
    }
}
pub fn val<T, E>(r: ParseResult<T, E>) -> Option<T> {
    match r {
        ParseResult::PeekOk(v) | ParseResult::CommitOk(v) => Some(v),
        _ => None,
    }
}
fn eoi<T>(r: &ParseResult<T, Er>) -> bool {
    match r {
        ParseResult::PeekErr(e) => e.error.0,
        ParseResult::CommitErr(e) => e.0,
        _ => false,
    }
}

/// A parser of one token: takes the first token if `accept` and fails without committing if not.
fn one<T: Copy + PartialEq, P: Parser<Ts<T>>>(mut p: P, mut st: Ts<T>, accept: bool, want: P::Output)
where
    P::Output: PartialEq,
{
    let limit = st.limit;
    let r = p.parse_stream(&mut st);
    if limit > 0 && accept {
        check!(kind(&r) == COMMIT_OK, "a matching token is accepted and consumed");
        check!(st.pos == 1, "exactly one token is consumed");
        check!(val(r) == Some(want), "the output is the token");
    } else {
        check!(kind(&r) == PEEK_ERR, "anything else is refused without committing");
        check!(limit > 0 || eoi(&r), "the end of the input is reported as such");
    }
    cover!(limit > 0 && accept, "accepted");
    cover!(limit == 0 || !accept, "refused");
}
fn b(p: impl Parser<Ts<u8>, Output = u8>, spec: impl Fn(u8) -> bool) {
    let st = bytes();
    one(p, st, spec(st.t[0]), st.t[0])
}
fn c(p: impl Parser<Ts<char>, Output = char>, spec: impl Fn(char) -> bool) {
    let st = chars();
    one(p, st, spec(st.t[0]), st.t[0])
}
/// The standard library's tables for higher characters are out of the verifier's reach.
fn below(n: u32, p: impl Parser<Ts<char>, Output = char>, spec: impl Fn(char) -> bool) {
    let st = chars();
    nd::assume((st.t[0] as u32) < n);
    one(p, st, spec(st.t[0]), st.t[0])
}
fn within(c: u8, lo: u8, hi: u8) -> bool {
    lo <= c && c <= hi
}
fn digit(c: u8) -> bool {
    within(c, b'0', b'9')
}
fn upper(c: u8) -> bool {
    within(c, b'A', b'Z')
}
fn lower(c: u8) -> bool {
    within(c, b'a', b'z')
}
fn hex(c: u8) -> bool {
    digit(c) || within(c, b'a', b'f') || within(c, b'A', b'F')
}
fn ascii(c: char, f: impl Fn(u8) -> bool) -> bool {
    (c as u32) < 128 && f(c as u8)
}

/// Two tokens in a row, as `crlf` and `tokens` match them: all or nothing but commits after one.
fn check_tokens<T: Copy + PartialEq, R>(r: &ParseResult<R, Er>, st: &Ts<T>, n: usize, same: impl Fn(usize) -> bool) {
    let mut m = 0;
    while m < n && m < st.limit as usize && same(m) {
        m += 1;
    }
    let k = kind(r);
    if m == n {
        check!(k == if n == 0 { PEEK_OK } else { COMMIT_OK }, "a full match succeeds");
        check!(st.pos as usize == n, "a full match consumes exactly its tokens");
    } else {
        check!(k == if m == 0 { PEEK_ERR } else { COMMIT_ERR }, "a mismatch fails, committed iff a token had matched");
        check!(eoi(r) == (m == st.limit as usize), "the end of the input is told from a wrong token");
    }
    cover!(m == n, "match");
    cover!(n > 1 && m == 1, "partial match");
}

harnesses! {
    [4] fn any_() { let st = bytes(); one(any(), st, true, st.t[0]) }
    [4] fn satisfy_() {
        let (x, y) = (nd::u8(), nd::u8());
        b(satisfy(move |c| c & x == y), move |c| c & x == y)
    }
    [4] fn satisfy_map_() {
        let (x, y) = (nd::u8(), nd::u8());
        let st = bytes();
        one(satisfy_map(move |c: u8| if c & x == y { Some(c as u16 + 300) } else { None }), st, st.t[0] & x == y, st.t[0] as u16 + 300)
    }
    [4] fn token_() { let x = nd::u8(); b(token(x), move |c| c == x) }
    [4] fn char_token() { let x = nd::char(); c(char::char(x), move |c| c == x) }
    [4] fn byte_token() { let x = nd::u8(); b(byte::byte(x), move |c| c == x) }
    [5] fn one_of_() {
        let s = [nd::u8(), nd::u8(), nd::u8()];
        b(one_of(s), move |c| c == s[0] || c == s[1] || c == s[2])
    }
    [5] fn none_of_() {
        let s = [nd::u8(), nd::u8(), nd::u8()];
        b(none_of(s), move |c| c != s[0] && c != s[1] && c != s[2])
    }
    [4] fn byte_digit() { b(byte::digit(), digit) }
    [4] fn byte_space() { b(byte::space(), |c| c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' || c == 12) }
    [4] fn byte_newline() { b(byte::newline(), |c| c == 10) }
    [4] fn byte_tab() { b(byte::tab(), |c| c == 9) }
    [4] fn byte_upper() { b(byte::upper(), upper) }
    [4] fn byte_lower() { b(byte::lower(), lower) }
    [4] fn byte_alpha_num() { b(byte::alpha_num(), |c| digit(c) || upper(c) || lower(c)) }
    [4] fn byte_letter() { b(byte::letter(), |c| upper(c) || lower(c)) }
    [4] fn byte_oct_digit() { b(byte::oct_digit(), |c| within(c, b'0', b'7')) }
    [4] fn byte_hex_digit() { b(byte::hex_digit(), hex) }
    [4] fn char_digit() { c(char::digit(), |c| ascii(c, digit)) }
    [4] fn char_newline() { c(char::newline(), |c| c == '\n') }
    [4] fn char_tab() { c(char::tab(), |c| c == '\t') }
    [4] fn char_oct_digit() { c(char::oct_digit(), |c| ascii(c, |c| within(c, b'0', b'7'))) }
    [4] fn char_hex_digit() { c(char::hex_digit(), |c| ascii(c, hex)) }
    [12] fn char_space() { c(char::space(), |c| c.is_whitespace()) }
    [36] fn char_upper() { c(char::upper(), |c| c.is_uppercase()) }
    [36] fn char_lower() { c(char::lower(), |c| c.is_lowercase()) }
    [36, "characters below U+0400"] fn char_alpha_num() { below(0x400, char::alpha_num(), |c| c.is_alphanumeric()) }
    [36, "characters below U+0400"] fn char_letter() { below(0x400, char::letter(), |c| c.is_alphabetic()) }
    [6] fn byte_crlf() {
        let mut st = bytes();
        let r = byte::crlf().parse_stream(&mut st);
        let t = st.t;
        check_tokens(&r, &st, 2, |i| t[i] == b"\r\n"[i]);
        check!(val(r).map_or(true, |c| c == b'\n'), "crlf returns the line feed");
    }
    [6] fn char_crlf() {
        let mut st = chars();
        let r = char::crlf().parse_stream(&mut st);
        let t = st.t;
        check_tokens(&r, &st, 2, |i| t[i] == ['\r', '\n'][i]);
        check!(val(r).map_or(true, |c| c == '\n'), "crlf returns the line feed");
    }
    /// The comparison decides, whatever it is.
    [6] fn tokens_() {
        let n = nd::below(4) as usize;
        let want = [nd::u8(), nd::u8(), nd::u8()];
        let mask = nd::u8();
        let mut st = bytes();
        let t = st.t;
        let r = tokens(|l: u8, r: u8| l & mask == r, "tokens", want.iter().cloned().take(n)).parse_stream(&mut st);
        check_tokens(&r, &st, n, |i| want[i] & mask == t[i]);
        if let Some(mut o) = val(r) {
            check!(n == 0 || o.next() == Some(want[0]), "the output is what was asked for");
        }
    }
    [6] fn tokens_cmp_() {
        let n = nd::below(4) as usize;
        let want = [nd::u8(), nd::u8(), nd::u8()];
        let mask = nd::u8();
        let mut st = bytes();
        let t = st.t;
        let r = tokens_cmp(want.iter().cloned().take(n), |l: u8, r: u8| l & mask == r).parse_stream(&mut st);
        check_tokens(&r, &st, n, |i| want[i] & mask == t[i]);
        if let Some(mut o) = val(r) {
            check!(n == 0 || o.next() == Some(want[0]), "the output is what was asked for");
        }
    }
    [6] fn string_() {
        let mut st = chars();
        let t = st.t;
        let r = char::string("a\u{e9}b").parse_stream(&mut st);
        check_tokens(&r, &st, 3, |i| t[i] == ['a', '\u{e9}', 'b'][i]);
    }
    [6] fn string_cmp_() {
        let mut st = chars();
        let t = st.t;
        let r = char::string_cmp("aB", |l: char, r: char| l.eq_ignore_ascii_case(&r)).parse_stream(&mut st);
        check_tokens(&r, &st, 2, |i| if i == 0 { t[i] == 'a' || t[i] == 'A' } else { t[i] == 'b' || t[i] == 'B' });
        check!(val(r).map_or(true, |s| s.len() == 2), "the output is the string asked for");
    }
    [6] fn bytes_() {
        let t = [nd::u8(), nd::u8(), nd::u8()];
        let n = nd::below(4) as usize;
        let mut s: &[u8] = &t[..n];
        let r = byte::bytes(b"xyz").parse_stream(&mut s);
        let mut m = 0;
        while m < n && t[m] == b"xyz"[m] {
            m += 1;
        }
        check!(kind(&r) == if m == 3 { COMMIT_OK } else if m == 0 { PEEK_ERR } else { COMMIT_ERR }, "bytes matches all of them or fails, committed iff one had matched");
        check!(m < 3 || s.len() == 0, "a full match consumes exactly its tokens");
        cover!(m == 3, "match");
    }
    [6] fn bytes_cmp_() {
        let t = [nd::u8(), nd::u8(), nd::u8()];
        let n = nd::below(4) as usize;
        let mut s: &[u8] = &t[..n];
        let r = byte::bytes_cmp(b"xy", |l: u8, r: u8| l == r | 32).parse_stream(&mut s);
        let mut m = 0;
        while m < n && m < 2 && t[m] | 32 == b"xy"[m] {
            m += 1;
        }
        check!(kind(&r) == if m == 2 { COMMIT_OK } else if m == 0 { PEEK_ERR } else { COMMIT_ERR }, "bytes_cmp matches all of them or fails, committed iff one had matched");
        check!(m < 2 || s.len() == n - 2, "a full match consumes exactly its tokens");
        cover!(m == 2, "match");
    }
    [6, "at most 3 tokens"] fn byte_spaces() {
        let mut st = bytes();
        let r = byte::spaces().parse_stream(&mut st);
        let mut m = 0;
        while m < st.limit as usize && st.t[m].is_ascii_whitespace() {
            m += 1;
        }
        check!(kind(&r) == if m == 0 { PEEK_OK } else { COMMIT_OK } && st.pos as usize == m, "spaces skips exactly the leading whitespace");
    }
    [12, "at most 3 tokens"] fn char_spaces() {
        let mut st = chars();
        let r = char::spaces().parse_stream(&mut st);
        let mut m = 0;
        while m < st.limit as usize && st.t[m].is_whitespace() {
            m += 1;
        }
        check!(kind(&r) == if m == 0 { PEEK_OK } else { COMMIT_OK } && st.pos as usize == m, "spaces skips exactly the leading whitespace");
    }
    [4] fn position_() {
        let mut st = bytes();
        st.pos = nd::within(0, st.limit);
        let p = st.pos;
        let r = position().parse_stream(&mut st);
        check!(kind(&r) == PEEK_OK && val(r) == Some(p) && st.pos == p, "position tells the position and consumes nothing");
    }
    [4] fn value_() {
        let mut st = bytes();
        let v = nd::u32();
        let r = value(v).parse_stream(&mut st);
        check!(kind(&r) == PEEK_OK && val(r) == Some(v) && st.pos == 0, "value succeeds without consuming");
    }
    [4] fn produce_() {
        let mut st = bytes();
        let v = nd::u32();
        let mut n = 0;
        let r = produce(|| { n += 1; v }).parse_stream(&mut st);
        check!(kind(&r) == PEEK_OK && val(r) == Some(v) && st.pos == 0 && n == 1, "produce calls its function once and consumes nothing");
    }
    [4] fn eof_() {
        let mut st = bytes();
        st.pos = nd::within(0, st.limit);
        let p = st.pos;
        let r = eof().parse_stream(&mut st);
        check!(kind(&r) == if p == st.limit { PEEK_OK } else { PEEK_ERR }, "eof succeeds exactly at the end of the input");
        check!(p < st.limit || st.pos == p, "eof consumes nothing");
    }
    [4] fn unexpected_() {
        let mut st = bytes();
        let r = unexpected_any::<_, _, u8>("x").parse_stream(&mut st);
        check!(kind(&r) == PEEK_ERR, "unexpected_any always fails without committing");
        let mut st = bytes();
        let r = unexpected("x").parse_stream(&mut st);
        check!(kind(&r) == PEEK_ERR, "unexpected always fails without committing");
    }
}
