//! Concrete histories on the real crate: one per defect found, whether repaired or recorded.
use combine::error::{ParseResult, StreamError, StringStreamError, Tracked, UnexpectedParse};
use combine::parser::choice::*;
use combine::parser::combinator::*;
use combine::parser::range::*;
use combine::parser::repeat::*;
use combine::parser::token::*;
use combine::parser::*;
use combine::stream::*;
use combine::*;
use std::fmt::Debug;

pub struct Case {
    pub property: &'static str,
    pub name: &'static str,
    pub run: fn() -> Result<(), String>,
}

type B = MaybePartialStream<&'static [u8]>;

fn show<T: Debug>(r: ParseResult<T, combine::error::UnexpectedParse>, left: usize) -> String {
    match r {
        ParseResult::PeekOk(v) => format!("PeekOk({:?}) with {} left", v, left),
        ParseResult::CommitOk(v) => format!("CommitOk({:?}) with {} left", v, left),
        ParseResult::PeekErr(_) => "PeekErr".into(),
        ParseResult::CommitErr(_) => "CommitErr".into(),
    }
}

/// Parsing fails expecting exactly the given characters.
fn expects<P: Parser<easy::Stream<&'static str>>>(p: &mut P, text: &'static str, want: &str) -> Result<(), String> {
    match p.easy_parse(text) {
        Ok(_) => Err("the parse succeeds".into()),
        Err(e) => {
            let mut got: Vec<char> = e.errors.iter().filter_map(|e| match e {
                easy::Error::Expected(easy::Info::Token(t)) => Some(*t),
                _ => None,
            }).collect();
            got.sort();
            let got: String = got.into_iter().collect();
            if got == want { Ok(()) } else { Err(format!("expected {:?} instead of {:?}", got, want)) }
        }
    }
}

/// Parsing in the given chunks has the result of parsing at once.
fn same<P: Parser<B>>(mk: impl Fn() -> P, chunks: &[&str]) -> Result<(), String>
where
    P::Output: Debug,
{
    let all: &'static [u8] = Box::leak(chunks.concat().into_bytes().into_boxed_slice());
    let mut one = MaybePartialStream(all, false);
    let r = mk().parse_stream(&mut one);
    let want = show(r, one.0.len());
    let mut p = mk();
    let mut state = Default::default();
    let (mut at, mut limit) = (0, 0);
    for (i, c) in chunks.iter().enumerate() {
        limit += c.len();
        let partial = i + 1 < chunks.len();
        let mut st = MaybePartialStream(&all[at..limit], partial);
        let r = p.parse_stream_partial(&mut st, &mut state);
        at = limit - st.0.len();
        match &r {
            ParseResult::PeekErr(e) if partial && e.error == UnexpectedParse::Eoi => continue,
            ParseResult::CommitErr(e) if partial && *e == UnexpectedParse::Eoi => continue,
            _ => (),
        }
        let got = show(r, all.len() - at);
        return if got == want { Ok(()) } else { Err(format!("in chunks {:?}: {}, at once: {}", chunks, got, want)) };
    }
    Err(format!("in chunks {:?}: no result, at once: {}", chunks, want))
}

/// Parsing gives the result; `None` is a failure.
fn gives<P: Parser<&'static str>>(mut p: P, input: &'static str, want: &str) -> Result<(), String>
where
    P::Output: Debug,
{
    let got = format!("{:?}", p.parse(input).ok());
    if got == want { Ok(()) } else { Err(format!("{:?}: {} instead of {}", input, got, want)) }
}

fn t(c: char) -> Token<B> {
    token(c as u8)
}
fn e(c: char) -> Token<easy::Stream<&'static str>> {
    token(c)
}
fn c(c: char) -> Token<&'static str> {
    token(c)
}

parser! {
    fn two_a[Input]()(Input) -> (u8, u8)
    where [Input: Stream<Token = u8>]
    {
        (token(b'a'), token(b'a'))
    }
}

/// Leaves a token consumed when it fails without committing, which the `Parser` contract allows.
struct Sloppy;
impl Parser<&'static str> for Sloppy {
    type Output = ();
    type PartialState = ();
    fn parse_lazy(&mut self, input: &mut &'static str) -> ParseResult<(), StringStreamError> {
        match uncons(input) {
            ParseResult::CommitOk('a') => ParseResult::CommitOk(()),
            _ => ParseResult::PeekErr(Tracked::from(StringStreamError::UnexpectedParse)),
        }
    }
}

macro_rules! cases {
    ($($prop:ident $name:ident: $e:expr;)*) => {
        pub const CASES: &[Case] = &[$(Case { property: stringify!($prop), name: stringify!($name), run: || $e }),*];
    };
}

cases! {
    C06 sep_by1_resumed: same(|| sep_by1::<Vec<_>, _, _, _>(t('a'), t(',')), &["a", ",a"]);
    C05 chainr1_trailing_operator: gives(chainr1(c('a').map(|_| 1), c('+').map(|_| |l, r| l * 2 + r)), "a+", "None");
    C06 repeat_until_end_resumed: same(|| repeat_until::<Vec<_>, _, _, _>(any(), (t('a'), t('b'))), &["xa", "b"]);
    C05 escaped_resets: gives((combine::parser::range::recognize(escaped(Sloppy, '\\', c('n'))), many::<String, _, _>(any())), "a\\nab", "Some(((\"a\\\\na\", \"b\"), \"\"))");
    C05 escaped_commits: gives((escaped(skip_many1(c('a')), '\\', value(())), c('x')).map(|_| ()).or(many::<String, _, _>(any()).map(|_| ())), "\\b", "None");
    C06 sequence_commit_resumed: same(|| (optional((t('a'), t('b'))), many::<Vec<_>, _, _>(any())), &["a", "c"]);
    C20 many_parsers: {
        macro_rules! t8 { ($e:expr) => { ($e, $e, $e, $e, $e, $e, $e, $e) } }
        fn v() -> impl Parser<&'static str, Output = u8> { value(1u8) }
        let p = t8!(t8!(t8!(v())));
        let _ = Parser::<&'static str>::parser_count(&p);
        let e = (p, token('a')).parse("b").map(|_| ());
        if e.is_ok() { return Err("the last of 513 parsers was not run".into()) }
        Ok(())
    };
    C07 tokens_partial: same(|| tokens(|l, r| l == r, "ab", b"ab".iter().cloned()).map(|_| ()), &["a", "b"]);
    C07 tokens_cmp_partial: same(|| tokens_cmp(b"ab".iter().cloned(), |l, r| l == r).map(|_| ()), &["a", "b"]);
    C06 parser_macro_without_state: same(|| two_a(), &["a", "a"]);
    C03 not_followed_by_partial: same(|| (not_followed_by((t('a'), t('b')).map(|_| "ab")), any()), &["a", "b"]);
    C03 attempt_state: gives(many::<Vec<_>, _, _>((optional(attempt(many::<String, _, _>((c('a'), c('b')).map(|_| 'x')))), any())), "abac", "Some(([(None, 'a'), (Some(\"\"), 'b'), (None, 'a'), (Some(\"\"), 'c')], \"\"))");
    C15 lazy_expected: {
        let mut p = any().then(|_| combine::parser::combinator::lazy(|| token('b').expected("bee")));
        let e = p.easy_parse("ax").map(|t: (char, &str)| t.0).unwrap_err();
        if format!("{}", e).contains("bee") { Ok(()) } else { Err(format!("{}", e)) }
    };
    C06 choice_array_resumed: same(|| many::<Vec<_>, _, _>(choice([t('a'), t('b')])), &["a", "ba"]);
    C05 repeat_until_commits: gives(many::<Vec<_>, _, _>((optional(repeat_until::<Vec<_>, _, _, _>(c('a'), c('z'))), any())), "abazz", "None");
    C05 take_until_commits: gives(optional(take_until::<Vec<_>, _, _>(c('z'))), "aab", "None");
    C04 iterate_failed_run: gives(
        many::<Vec<_>, _, _>((optional(iterate::<Vec<_>, _, _, _, _>(0..2, |i: &i32, _: &mut &str| if *i == 0 { value('x').left() } else { c('b').right() })), any())),
        "abb", "Some(([(None, 'a'), (Some(['x', 'b']), 'b')], \"\"))");
    C04 count_min_max_failed_run: {
        let n = std::cell::Cell::new(0);
        gives(many::<Vec<_>, _, _>((
            optional(count_min_max::<Vec<_>, _, _>(2, 2, value(()).then(|_| {
                n.set(n.get() + 1);
                if n.get() == 2 { unexpected_any("second run").left() } else { value(n.get()).right() }
            }))),
            any(),
        )), "ab", "Some(([(None, 'a'), (Some([3, 4]), 'b')], \"\"))")
    };
    C06 many_commit_resumed: same(|| (optional((many::<Vec<_>, _, _>(t('a')), t('b'))), any()), &["a", "c"]);
    C06 many1_commit_resumed: same(|| {
        let n = std::cell::Cell::new(0);
        let p = value(()).then(move |_| {
            n.set(n.get() + 1);
            if n.get() == 1 { value(b'x').left() } else { t('a').right() }
        });
        (optional((many1::<Vec<_>, _, _>(p), t('b'))), any())
    }, &["a", "c"]);
    C06 sep_end_by1_commit_resumed: same(|| sep_end_by1::<Vec<_>, _, _, _>(optional(t('a')), t(',')), &[",a", "y"]);
    C06 sep_by1_commit_resumed: same(|| sep_by1::<Vec<_>, _, _, _>(optional(t('a')), t(',')), &[",a", "y"]);
    C06 skip_many1_commit_resumed: same(|| skip_many1(optional(t('a')).then(|x| if x.is_some() { value(()).left() } else { t('b').map(|_| ()).right() })), &["aab", "ba"]);
    C06 chainl1_commit_resumed: same(|| chainl1(optional(t('a')).map(|_| 1u8), t('+').map(|_| |l: u8, r: u8| l * 2 + r)), &["+a", "y"]);
    C06 chainr1_commit_resumed: same(|| chainr1(optional(t('a')).map(|_| 1u8), t('+').map(|_| |l: u8, r: u8| l * 2 + r)), &["+a", "y"]);
    C06 count_min_max_commit_resumed: same(|| count_min_max::<Vec<_>, _, _>(1, 3, t('a')), &["a", "ab"]);
    C06 repeat_until_commit_resumed: same(|| repeat_until::<Vec<_>, _, _, _>(t('a'), t('x')), &["a", "ax"]);
    C06 escaped_commit_resumed: same(|| combine::parser::range::recognize(escaped(skip_many1(t('a')), b'\\', t('n'))), &["\\", "nb"]);
    C06 then_final_failure: {
        let mut st = MaybePartialStream(&b"b"[..], true);
        match any().then(|_: u8| unexpected_any::<B, &'static str, u8>("x")).parse_stream_partial(&mut st, &mut Default::default()) {
            ParseResult::CommitErr(e) if e != UnexpectedParse::Eoi => Ok(()),
            r => Err(format!("{:?} instead of a final failure", r)),
        }
    };
    C07 eof_partial: same(|| (t('a'), eof()), &["a", "b"]);
    C07 take_fn_commits: same(|| optional(byte::take_until_byte(b'x')), &["aa", ""]);
    C06 chainr1_resumed: same(|| chainr1(t('a').map(|_| 1u8), t('+').map(|_| |l: u8, r: u8| l * 2 + r)), &["a", "+a", "+a"]);
    C06 escaped_resumed: same(|| combine::parser::range::recognize(escaped(skip_many1(t('a')), b'\\', t('n'))), &["a\\", "na", "b"]);
    C09 take_until_bytes_char: {
        type S = MaybePartialStream<&'static str>;
        let mut p = byte::take_until_bytes::<S>(b"\r\n");
        let mut state = Default::default();
        let _ = p.parse_stream_partial(&mut MaybePartialStream("a\u{e9}", true), &mut state);
        let mut st = MaybePartialStream("a\u{e9}\r\nb", true);
        match p.parse_stream_partial(&mut st, &mut state) {
            ParseResult::CommitOk("a\u{e9}") if st.0 == "\r\nb" => Ok(()),
            r => Err(format!("{:?} with {:?} left", r, st.0)),
        }
    };
    C09 range_empty: gives(choice((range("").with(c('a')), c('b'))), "b", "Some(('b', \"\"))");
    C06 attempt_resumed: same(|| (optional(attempt((t('a'), t('b')))), many::<Vec<_>, _, _>(any())), &["a", "a"]);
    C06 take_until_end_resumed: same(|| take_until::<Vec<_>, _, _>((t('a'), t('b'))), &["a", "b"]);
    C21 either_expected: expects(&mut ({
        let mut x = many1::<String, _, _>(e('a')).left();
        if false {
            x = many1::<String, _, _>(e('b')).right();
        }
        x
    }, e('c')), "ax", "ac");
    C21 factory_then_part: expects(&mut (factory(|_: &mut easy::Stream<&str>| (optional(e('a')), optional(e('b')))), e('c')), "x", "abc");
    C21 recognize_then_part: expects(&mut (combinator::recognize::<String, _, _>((optional(e('a')), optional(e('b')))), e('c')), "x", "abc");
    C21 wrapped_then_part: expects(&mut (lazy(|| (optional(e('a')), optional(e('b')))), e('c')), "x", "abc");
    C06 function_resumed: same(|| (function::parser(|i: &mut B| (t('a'), t('b')).parse_stream(i).into_result()), any()), &["a", "bc"]);
    C15 nested_expected: expects(&mut (optional(e('a')), (optional(e('b')), e('c'))), "d", "abc");
    C15 committed_nested_expected: expects(&mut (e('x'), (optional(e('a')), optional(e('b'))), optional(e('c')), e('d')), "xz", "abcd");
    C15 choice_expected: expects(&mut e('c').or(optional(e('a')).with(e('b'))), "x", "abc");
    C15 choice_then_part: expects(&mut (optional(e('a').or(e('b'))), e('c')), "x", "abc");
    C15 nested_then_part: expects(&mut ((e('a'), optional(e('b'))), e('c')), "ax", "bc");
}
