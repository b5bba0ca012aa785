//! C21 a wrapped parser behaves exactly as the parser itself.
//!
//! Every harness runs a grammar of scripted parsers twice on the same input: as it is, and with a
//! part of it wrapped. The script of a parser is chosen on its first run and repeated on the second.
use crate::model::*;
use crate::nd;
use crate::{check, cover, fwd_modes, harnesses};
use combine::error::*;
use combine::parser::combinator::*;
use combine::parser::function::{env_parser, parser};
use combine::parser::*;
use combine::stream::span::Span;
use combine::stream::*;
use combine::*;

#[derive(Clone, Copy)]
struct Call {
    entry: u8,
    exit: u8,
    resumed: bool,
    kind: u8,
}
const CALLS: usize = 2;
struct Script {
    c: [[Call; CALLS]; 3],
    /// Number of calls written down, and number of calls in this run.
    n: [usize; 3],
    k: [usize; 3],
    replay: bool,
}
const C0: Call = Call { entry: 0, exit: 0, resumed: false, kind: 9 };
static mut SCRIPT: Script = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
fn script() -> &'static mut Script {
    unsafe { &mut *std::ptr::addr_of_mut!(SCRIPT) }
}

/// A scripted parser: within the `Parser` contract, and the same in both runs.
#[derive(Clone, Copy)]
pub struct Sc<const ID: usize>;
impl<const ID: usize> Sc<ID> {
    fn run(&mut self, first: bool, pos: u8, limit: u8, part: bool, state: &mut u8) -> (u8, u8, u8) {
        let s = script();
        let resumed = !first && *state == SUSPENDED;
        let k = s.k[ID];
        check!(k < CALLS, "a part is not called again once it is done");
        s.k[ID] = k + 1;
        let c;
        if s.replay {
            check!(k < s.n[ID], "a wrapped parser makes the same calls");
            c = s.c[ID][k];
            check!(c.entry == pos, "a wrapped parser makes the same calls at the same places");
            check!(c.resumed == resumed, "a wrapped parser resumes what was suspended");
        } else {
            let kind = nd::below(if part { 5 } else { 4 });
            let exit = if kind == PEEK_OK { pos } else { nd::within(pos, limit) };
            nd::assume(kind != COMMIT_OK || exit > pos || resumed);
            c = Call { entry: pos, exit, resumed, kind };
            s.c[ID][k] = c;
            s.n[ID] = k + 1;
        }
        *state = match c.kind {
            SUSPEND => SUSPENDED,
            COMMIT_ERR => RESIDUE,
            _ => FRESH,
        };
        (c.kind, c.exit, (ID * 4 + k) as u8)
    }
}
impl<const ID: usize> Parser<St> for Sc<ID> {
    type Output = u8;
    type PartialState = u8;
    fwd_modes!(St);
    fn parse_mode_impl<M: ParseMode>(&mut self, m: M, input: &mut St, state: &mut u8) -> ParseResult<u8, E> {
        let (kind, exit, val) = self.run(m.is_first(), input.pos, input.limit, input.partial, state);
        let entry = input.pos;
        input.pos = exit;
        match kind {
            PEEK_OK => ParseResult::PeekOk(val),
            COMMIT_OK => ParseResult::CommitOk(val),
            PEEK_ERR => ParseResult::PeekErr(nd_err(ID as u8, entry, false).into()),
            COMMIT_ERR => ParseResult::CommitErr(nd_err(ID as u8, exit, false)),
            _ => ParseResult::CommitErr(nd_err(ID as u8, exit, true)),
        }
    }
    fn add_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(ID as u8)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(8 + ID as u8)
    }
}
pub const A: Sc<0> = Sc;
pub const B: Sc<1> = Sc;
pub const C: Sc<2> = Sc;

/// Runs a parser through entry point `how`; if it asks for more input it is resumed once.
fn run<P: Parser<St>>(p: &mut P, st: &mut St, how: u8, more: u8) -> (Out<P::Output>, u8, Option<(Out<P::Output>, u8)>) {
    let mut s = Default::default();
    let r = out(match how {
        0 => p.parse_mode(FirstMode, st, &mut s),
        1 => p.parse_mode(PartialMode::default(), st, &mut s),
        2 => p.parse_committed_mode(FirstMode, st, &mut s),
        3 => p.parse_stream_partial(st, &mut s),
        4 => p.parse_lazy(st),
        _ => p.parse_stream(st),
    });
    let at = st.pos;
    if how < 4 && st.partial && r.kind == COMMIT_ERR && r.err.map_or(false, |e| e.eoi) {
        st.limit += more;
        let r2 = out(p.parse_stream_partial(st, &mut s));
        return (r, at, Some((r2, st.pos)));
    }
    (r, at, None)
}
fn run_same<P, Q>(mut bare: P, mut wrapped: Q, how: u8, whole: bool, partial: bool)
where
    P: Parser<St>,
    Q: Parser<St, Output = P::Output>,
    P::Output: PartialEq,
{
    let st = any_st(partial && nd::bool());
    let more = nd::below(2);
    *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
    let a = run(&mut bare, &mut st.clone(), how, more);
    script().k = [0; 3];
    script().replay = true;
    let b = run(&mut wrapped, &mut st.clone(), how, more);
    let s = script();
    cover!(a.0.err.is_some() && s.n[0] > 0, "failure");
    if !whole {
        // Known finding wrapped_then_part
        let done = |i: usize| s.n[i] > 0 && s.c[i][s.n[i] - 1].kind == PEEK_OK;
        nd::assume(!(done(0) && done(1) && s.n[2] > 0 && s.c[2][s.n[2] - 1].kind == PEEK_ERR));
    }
    check!(s.k[0] == s.n[0] && s.k[1] == s.n[1] && s.k[2] == s.n[2], "a wrapped parser makes the same calls");
    check!(a.0.kind == b.0.kind && a.0.val == b.0.val, "a wrapped parser has the same result");
    check!(a.1 == b.1, "a wrapped parser stops at the same place");
    check!(a.0.err == b.0.err, "a wrapped parser reports the same error");
    check!(a.2 == b.2, "a wrapped parser continues the same way");
}
pub fn same_from<P, Q>(bare: P, wrapped: Q, how: u8, whole: bool)
where
    P: Parser<St>,
    Q: Parser<St, Output = P::Output>,
    P::Output: PartialEq,
{
    run_same(bare, wrapped, how, whole, true)
}
/// Alone, through every entry point.
pub fn same<P, Q>(bare: P, wrapped: Q)
where
    P: Parser<St>,
    Q: Parser<St, Output = P::Output>,
    P::Output: PartialEq,
{
    let how = nd::below(6);
    same_from(bare, wrapped, how, true)
}
/// Wraps one parser, the first part of a sequence, and the last part of one.
#[macro_export]
macro_rules! wrap {
    ($p:ident => $e:expr) => {
        $crate::wrap!($p, true => $e)
    };
    ($p:ident, $whole:expr => $e:expr) => {
        match nd::below(3) {
            0 => same(A, { let $p = || A; $e }),
            1 => same_from(((A, B), C), ({ let $p = || (A, B); $e }, C), 3, $whole),
            _ => same_from((A, (B, C)), (A, { let $p = || (B, C); $e }), 5, true),
        }
    };
}
/// The same from the start instead of resumed, and the other way around.
#[macro_export]
macro_rules! wrap_deep {
    ($p:ident => $e:expr) => {
        $crate::wrap_deep!($p, true => $e)
    };
    ($p:ident, $whole:expr => $e:expr) => {
        match nd::below(2) {
            0 => same_from(((A, B), C), ({ let $p = || (A, B); $e }, C), 5, $whole),
            _ => same_from((A, (B, C)), (A, { let $p = || (B, C); $e }), 3, true),
        }
    };
}
/// `St` and `E` with spans as positions.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ss {
    st: St,
    wide: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Es {
    span: Span<u8>,
    e: E,
}
impl ParseError<u8, u8, Span<u8>> for Es {
    type StreamError = SE;
    fn empty(p: Span<u8>) -> Self {
        Es { span: p, e: E::new(p.start) }
    }
    fn position(&self) -> Span<u8> {
        self.span
    }
    fn set_position(&mut self, p: Span<u8>) {
        self.span = p
    }
    fn merge(self, o: Self) -> Self {
        Es { span: self.span, e: self.e.merge(o.e) }
    }
    fn add(&mut self, e: SE) {
        self.e.add(e)
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, i: SE, f: F) {
        f(s);
        s.error.e.add(i)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.e.eoi
    }
    fn into_other<T: ParseError<u8, u8, Span<u8>>>(self) -> T {
        T::empty(self.span)
    }
}
impl StreamOnce for Ss {
    type Token = u8;
    type Range = u8;
    type Position = Span<u8>;
    type Error = Es;
    fn uncons(&mut self) -> Result<u8, SE> {
        self.st.uncons()
    }
    fn is_partial(&self) -> bool {
        self.st.partial
    }
}
impl Positioned for Ss {
    fn position(&self) -> Span<u8> {
        Span { start: self.st.pos, end: self.st.pos + self.wide }
    }
}
impl ResetStream for Ss {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        self.st.pos
    }
    fn reset(&mut self, c: u8) -> Result<(), Es> {
        self.st.pos = c;
        Ok(())
    }
}
/// `Sc`, whose errors are at `at`, or where it failed.
#[derive(Clone, Copy)]
struct Sp<const ID: usize>(Option<Span<u8>>);
impl<const ID: usize> Parser<Ss> for Sp<ID> {
    type Output = u8;
    type PartialState = u8;
    fwd_modes!(Ss);
    fn parse_mode_impl<M: ParseMode>(&mut self, m: M, input: &mut Ss, state: &mut u8) -> ParseResult<u8, Es> {
        let at = self.0;
        Sc::<ID>.parse_mode(m, &mut input.st, state).map_err(|e| Es { span: at.unwrap_or(Span { start: e.pos, end: e.pos }), e })
    }
    fn add_error(&mut self, e: &mut Tracked<Es>) {
        e.error.e.ex |= bit(ID as u8)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<Es>) {
        e.error.e.ex |= bit(8 + ID as u8)
    }
}

pub fn op<O, S: Default, P: Parser<St, Output = O, PartialState = S>>(mk: impl Fn() -> P) -> impl Parser<St, Output = O, PartialState = S> {
    opaque(move |f: &mut dyn FnMut(&mut dyn Parser<St, Output = O, PartialState = S>)| f(&mut mk()))
}
struct Keep;
impl<'a> Converter<'a, St> for Keep {
    type InputInner = St;
    fn convert(&mut self, input: &'a mut St) -> Result<St, E> {
        Ok(*input)
    }
    fn convert_error(&mut self, _: &'a mut St, e: E) -> E {
        E { ms: 1, ..e }
    }
}
parser! {
    fn mac1[]()(St) -> u8
    where []
    {
        A
    }
}
parser! {
    type PartialState = P::PartialState;
    pub fn mac2[P](p: P)(St) -> P::Output
    where [P: Parser<St>]
    {
        p.map(|x| x)
    }
}
parser! {
    type PartialState = AnyPartialState;
    pub fn mac3[P](p: P)(St) -> P::Output
    where [P: Parser<St>, P::PartialState: 'static]
    {
        any_partial_state(p.map(|x| x))
    }
}

harnesses! {
    [5] fn boxed() { wrap!(p => Box::new(p())) }
    [5] fn boxed_dyn() { wrap!(p => p().boxed()) }
    [5] fn by_ref_() {
        match nd::below(3) {
            0 => same(A, A.by_ref()),
            1 => same_from(((A, B), C), ((A, B).by_ref(), C), 3, true),
            _ => same_from((A, (B, C)), (A, (B, C).by_ref()), 5, true),
        }
    }
    [5] fn left_() { wrap!(p => { let mut x = p().left(); if false { x = p().right() } x }) }
    /// The other side of an `Either` starts afresh, whatever the state was used for before.
    [5] fn either_switch() {
        let (st, l, first) = (any_st(nd::bool()), nd::bool(), nd::bool());
        let side = |l: bool| if l { Either::Left(A) } else { Either::Right(B) };
        let go = |p: &mut Either<Sc<0>, Sc<1>>, t: &mut St, s: &mut _| {
            out(if first { p.parse_mode(FirstMode, t, s) } else { p.parse_mode(PartialMode::default(), t, s) })
        };
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let mut s = Default::default();
        let r = go(&mut side(l), &mut st.clone(), &mut s);
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let (mut t, mut u) = (st, st);
        let a = go(&mut side(!l), &mut t, &mut Default::default());
        script().k = [0; 3];
        script().replay = true;
        let b = go(&mut side(!l), &mut u, &mut s);
        check!(a.kind == b.kind && a.val == b.val && a.err == b.err && t.pos == u.pos, "a wrapped parser has the same result");
        cover!(r.kind == COMMIT_ERR && a.kind == COMMIT_OK, "the other side after a failure");
    }
    [5] fn right_() { wrap!(p => { let mut x = p().right(); if false { x = p().left() } x }) }
    [5] fn lazy_() { wrap!(p, false => lazy(p)) }
    [5] fn factory_() { wrap!(p => factory(move |_: &mut St| p())) }
    [5] fn any_state() { wrap!(p => any_partial_state(p())) }
    [5] fn opaque_() { wrap!(p, false => op(p)) }
    [5] fn map_() { wrap!(p => p().map(|x| x)) }
    [5] fn macro_plain() {
        if nd::bool() {
            run_same(A, mac1(), 5, true, false)
        } else {
            run_same((A, B), (mac1(), B), 5, true, false)
        }
    }
    [5] fn macro_state() { wrap!(p, false => mac2(p())) }
    /// Another view of the input: the parser runs on it, and its errors are converted.
    [5] fn converted() {
        let mut st = any_st(nd::bool());
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let m = nd::bool();
        let (mut s, mut t) = (Default::default(), Default::default());
        let mut a = (A, B);
        let mut r = out(if m { a.parse_mode(FirstMode, &mut st.clone(), &mut s) } else { a.parse_mode(PartialMode::default(), &mut st.clone(), &mut s) });
        if let Some(e) = &mut r.err {
            e.ms = 1;
        }
        script().k = [0; 3];
        script().replay = true;
        let mut b = input_converter((A, B), Keep);
        let q = out(if m { b.parse_mode(FirstMode, &mut st, &mut t) } else { b.parse_mode(PartialMode::default(), &mut st, &mut t) });
        check!(r == q, "a wrapped parser has the same result, with its error converted");
        cover!(r.kind == COMMIT_ERR, "failed");
    }
    /// Without a state of its own a parser starts over, from where it started.
    [5] fn no_partial_() {
        let mut st = any_st(nd::bool());
        let (before, more) = (st, nd::below(2));
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let mut s = Default::default();
        let mut p = no_partial((A, B));
        let r = out(if nd::bool() { p.parse_mode(FirstMode, &mut st, &mut s) } else { p.parse_mode(PartialMode::default(), &mut st, &mut s) });
        check!(script().k[0] == 1 && !script().c[0][0].resumed && script().c[0][0].entry == before.pos, "a parser without state starts from the beginning");
        let bare = {
            script().k = [0; 3];
            script().replay = true;
            out((A, B).parse_mode(FirstMode, &mut before.clone(), &mut Default::default()))
        };
        check!(r == bare, "a wrapped parser has the same result");
        if r.kind == COMMIT_ERR && before.partial {
            check!(st.pos == before.pos, "a parser that has to start over is given back its input");
        }
        cover!(r.kind == COMMIT_ERR && before.partial, "has to start over");
    }
    /// An error gets the span of what was parsed, unless it already has one.
    [5] fn spanned_() {
        let (a, b) = (nd::below(3), nd::below(3));
        let at = if nd::bool() { Some(Span { start: a, end: a + b }) } else { None };
        let st = Ss { st: any_st(nd::bool()), wide: nd::below(2) };
        let first = nd::bool();
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let (mut s, mut t) = (st, st);
        let (mut bare, mut p) = (Sp::<0>(at), Sp::<0>(at).spanned());
        let r = if first { bare.parse_mode(FirstMode, &mut s, &mut 0) } else { bare.parse_mode(PartialMode::default(), &mut s, &mut 0) };
        script().k = [0; 3];
        script().replay = true;
        let q = if first { p.parse_mode(FirstMode, &mut t, &mut 0) } else { p.parse_mode(PartialMode::default(), &mut t, &mut 0) };
        check!(s == t, "a wrapped parser stops at the same place");
        let want = |mut e: Es| {
            if e.span.start == e.span.end {
                e.span = Span { start: st.st.pos, end: s.st.pos + st.wide };
            }
            e
        };
        match (r, q) {
            (ParseResult::PeekOk(x), ParseResult::PeekOk(y)) => check!(x == y, "a wrapped parser has the same result"),
            (ParseResult::CommitOk(x), ParseResult::CommitOk(y)) => check!(x == y, "a wrapped parser has the same result"),
            (ParseResult::PeekErr(x), ParseResult::PeekErr(y)) => check!(want(x.error) == y.error, "a wrapped parser reports the same error, with its span"),
            (ParseResult::CommitErr(x), ParseResult::CommitErr(y)) => {
                cover!(y.span.start < y.span.end, "an error with a span");
                check!(want(x) == y, "a wrapped parser reports the same error, with its span")
            }
            _ => check!(false, "a wrapped parser has the same result"),
        }
    }
    /// What a sequence with a span expects.
    [5] fn spanned_errors() {
        let st = Ss { st: any_st(nd::bool()), wide: 0 };
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let (mut s, mut t) = (st, st);
        let right = nd::bool();
        let (a, b, c) = (Sp::<0>(None), Sp::<1>(None), Sp::<2>(None));
        let r = if right { (a, (b, c)).map(|_| ()).parse_stream(&mut s) } else { ((a, b), c).map(|_| ()).parse_stream(&mut s) };
        script().k = [0; 3];
        script().replay = true;
        let q = if right { (a, (b, c).spanned()).map(|_| ()).parse_stream(&mut t) } else { ((a, b).spanned(), c).map(|_| ()).parse_stream(&mut t) };
        match (r, q) {
            (ParseResult::PeekErr(x), ParseResult::PeekErr(y)) => check!(x.error.e == y.error.e, "a wrapped parser reports the same error"),
            (ParseResult::CommitErr(x), ParseResult::CommitErr(y)) => check!(x.e == y.e, "a wrapped parser reports the same error"),
            (ParseResult::PeekOk(_), ParseResult::PeekOk(_)) | (ParseResult::CommitOk(_), ParseResult::CommitOk(_)) => {}
            _ => check!(false, "a wrapped parser has the same result"),
        }
    }
    /// A function used as a parser has the outcome of the function, which is called once.
    [5] fn function_() {
        let st = any_st(nd::bool());
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let (mut s, mut t) = (st, st);
        let r = out(A.parse_stream(&mut s));
        script().k = [0; 3];
        script().replay = true;
        let first = nd::bool();
        fn f(i: &mut St) -> StdParseResult<u8, St> {
            A.parse_stream(i).into_result()
        }
        fn g(env: u8, i: &mut St) -> StdParseResult<u8, St> {
            check!(env == 7, "a function is given its environment");
            A.parse_stream(i).into_result()
        }
        let q = out(match nd::below(4) {
            0 if first => parser(f).parse_mode(FirstMode, &mut t, &mut ()),
            0 => parser(f).parse_mode(PartialMode::default(), &mut t, &mut ()),
            1 if first => env_parser(7, g).parse_mode(FirstMode, &mut t, &mut ()),
            1 => env_parser(7, g).parse_mode(PartialMode::default(), &mut t, &mut ()),
            2 => (f as fn(&mut St) -> StdParseResult<u8, St>).parse_mode(FirstMode, &mut t, &mut ()),
            _ => {
                let mut h = |i: &mut St| A.parse_stream(i).into_result();
                let d: &mut dyn FnMut(&mut St) -> StdParseResult<u8, St> = &mut h;
                d.parse_partial(&mut t, &mut ())
            }
        });
        check!(r == q, "a function parser has the outcome of its function");
        check!(script().k[0] == 1, "the function is called once");
        if r.kind == COMMIT_ERR && st.partial {
            check!(t == st, "a parser that has to start over is given back its input");
        } else {
            check!(s == t, "a function parser stops where its function stopped");
        }
        cover!(r.kind == COMMIT_ERR && st.partial, "has to start over");
    }
    /// A parser built from the input is built where it starts, for every run anew.
    [5] fn factory_calls() {
        let mut st = any_st(nd::bool());
        let (b, more) = (st, nd::below(2));
        *script() = Script { c: [[C0; CALLS]; 3], n: [0; 3], k: [0; 3], replay: false };
        let (mut n, mut at) = (0u8, 99u8);
        let mut s = Default::default();
        {
            let mut p = factory(|i: &mut St| {
                n += 1;
                at = i.pos;
                A
            });
            let r = out(p.parse_first(&mut st, &mut s));
            if r.kind == COMMIT_ERR && st.partial && r.err.unwrap().eoi {
                st.limit += more;
                p.parse_partial(&mut st, &mut s);
            }
        }
        check!(n == 1 && at == b.pos, "a parser is built once, from the input where it starts");
        let mut m = 0u8;
        {
            let mut p = factory(|i: &mut St| {
                m += 1;
                Sc::<1>
            });
            p.parse_first(&mut st, &mut Default::default());
            p.parse_first(&mut st, &mut Default::default());
        }
        check!(m == 2, "every run builds its parser");
    }
}
