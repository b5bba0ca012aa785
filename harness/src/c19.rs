//! C19 stream adaptors pass every operation on to the stream they wrap and its answer back.
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::stream::position::IndexPositioner;
use combine::stream::span::Span;
use combine::stream::*;
use combine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct R(u8);
impl combine::stream::Range for R {
    fn len(&self) -> usize {
        self.0 as usize
    }
}
/// An error that tells which one it is; number 0 is the end of the input.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Se(u8);
impl StreamError<u8, R> for Se {
    fn unexpected_token(t: u8) -> Self {
        Se(t)
    }
    fn unexpected_range(_: R) -> Self {
        Se(255)
    }
    fn unexpected_format<U: std::fmt::Display>(_: U) -> Self {
        Se(254)
    }
    fn expected_token(_: u8) -> Self {
        Se(253)
    }
    fn expected_range(_: R) -> Self {
        Se(252)
    }
    fn expected_format<U: std::fmt::Display>(_: U) -> Self {
        Se(251)
    }
    fn message_token(_: u8) -> Self {
        Se(250)
    }
    fn message_range(_: R) -> Self {
        Se(249)
    }
    fn message_format<U: std::fmt::Display>(_: U) -> Self {
        Se(248)
    }
    fn end_of_input() -> Self {
        Se(0)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0 == 0
    }
    fn into_other<U: StreamError<u8, R>>(self) -> U {
        if self.0 == 0 { U::end_of_input() } else { U::unexpected_token(self.0) }
    }
}
impl StreamErrorInto<u8, R> for Se {
    fn into_other_error<T, I2, R2>(self) -> T
    where
        T: StreamError<I2, R2>,
        I2: From<u8>,
        R2: From<R>,
    {
        if self.0 == 0 { T::end_of_input() } else { T::unexpected_token(I2::from(self.0)) }
    }
}
pub trait Num {
    fn num(&self) -> u8;
}
impl Num for u8 {
    fn num(&self) -> u8 {
        *self
    }
}
impl Num for usize {
    fn num(&self) -> u8 {
        *self as u8
    }
}
impl Num for Span<u8> {
    fn num(&self) -> u8 {
        check!(self.start == self.end, "the position of a stream is a point");
        self.start
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Er {
    pos: u8,
    e: Se,
}
impl<P: Num> ParseError<u8, R, P> for Er {
    type StreamError = Se;
    fn empty(p: P) -> Self {
        Er { pos: p.num(), e: Se(247) }
    }
    fn from_error(p: P, e: Se) -> Self {
        Er { pos: p.num(), e }
    }
    fn set_position(&mut self, p: P) {
        self.pos = p.num()
    }
    fn add(&mut self, e: Se) {
        self.e = e
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, _: Se, f: F) {
        f(s)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.e.0 == 0
    }
    fn into_other<T: ParseError<u8, R, P>>(self) -> T {
        unreachable!()
    }
}
/// The errors of the base stream.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Eb(Er);
impl ParseError<u8, R, u8> for Eb {
    type StreamError = Se;
    fn empty(p: u8) -> Self {
        Eb(Er::empty(p))
    }
    fn from_error(p: u8, e: Se) -> Self {
        Eb(Er::from_error(p, e))
    }
    fn set_position(&mut self, p: u8) {
        self.0.pos = p
    }
    fn add(&mut self, e: Se) {
        self.0.e = e
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, _: Se, f: F) {
        f(s)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0.e.0 == 0
    }
    fn into_other<T: ParseError<u8, R, u8>>(self) -> T {
        T::from_error(self.0.pos, self.0.e.into_other())
    }
}
impl ParseErrorInto<u8, R, u8> for Eb {
    fn into_other_error<T, I2, R2, P2>(self) -> T
    where
        T: ParseError<I2, R2, P2>,
        I2: From<u8>,
        R2: From<R>,
        P2: From<u8>,
    {
        T::from_error(P2::from(self.0.pos), self.0.e.into_other_error::<T::StreamError, I2, R2>())
    }
}
// position::Stream keeps the errors of its stream, at positions of its own
impl ParseError<u8, R, usize> for Eb {
    type StreamError = Se;
    fn empty(p: usize) -> Self {
        Eb(Er::empty(p))
    }
    fn from_error(p: usize, e: Se) -> Self {
        Eb(Er::from_error(p, e))
    }
    fn set_position(&mut self, p: usize) {
        self.0.pos = p as u8
    }
    fn add(&mut self, e: Se) {
        self.0.e = e
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, _: Se, f: F) {
        f(s)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0.e.0 == 0
    }
    fn into_other<T: ParseError<u8, R, usize>>(self) -> T {
        unreachable!()
    }
}

/// What the base stream was last asked, and what it answered.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Log {
    calls: u8,
    op: u8,
    arg: u64,
    /// kind of answer (0 ok, 1 error, 2 uncommitted error), its number
    kind: u8,
    ans: u8,
    /// tokens shown to the predicate, and what it said
    shown: [u8; 2],
    said: [bool; 2],
}
const NONE: Log = Log { calls: 0, op: 0, arg: 0, kind: 0, ans: 0, shown: [0; 2], said: [false; 2] };
static mut LOG: Log = NONE;
fn log() -> &'static mut Log {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}
const UNCONS: u8 = 1;
const RANGE: u8 = 2;
const WHILE: u8 = 3;
const WHILE1: u8 = 4;
const RESET: u8 = 5;
const DISTANCE: u8 = 6;

/// Any stream at all.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Base {
    pos: u8,
    cp: u8,
    range: u8,
    dist: usize,
    partial: bool,
}
fn base() -> Base {
    *log() = NONE;
    Base { pos: nd::u8(), cp: nd::u8(), range: nd::u8(), dist: nd::usize(), partial: nd::bool() }
}
fn called(op: u8, arg: u64) -> u8 {
    let l = log();
    l.calls += 1;
    l.op = op;
    l.arg = arg;
    l.ans = nd::u8();
    l.ans
}
fn any<T>(op: u8, arg: u64, f: fn(u8) -> T) -> Result<T, Se> {
    let n = called(op, arg);
    if nd::bool() {
        log().kind = 0;
        Ok(f(n))
    } else {
        log().kind = 1;
        Err(Se(n))
    }
}
fn show<F: FnMut(u8) -> bool>(mut f: F) {
    let n = nd::below(3);
    let mut s = log().shown;
    let mut a = [false; 2];
    if n > 0 {
        s[0] = nd::u8();
        a[0] = f(s[0]);
    }
    if n > 1 {
        s[1] = nd::u8();
        a[1] = f(s[1]);
    }
    log().shown = s;
    log().said = a;
}
impl StreamOnce for Base {
    type Token = u8;
    type Range = R;
    type Position = u8;
    type Error = Eb;
    fn uncons(&mut self) -> Result<u8, Se> {
        any(UNCONS, 0, |n| n)
    }
    fn is_partial(&self) -> bool {
        self.partial
    }
}
impl Positioned for Base {
    fn position(&self) -> u8 {
        self.pos
    }
}
impl ResetStream for Base {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        self.cp
    }
    fn reset(&mut self, c: u8) -> Result<(), Eb> {
        let p = self.pos;
        any(RESET, c as u64, |_| ()).map_err(|e| Eb(Er { pos: p, e }))
    }
}
impl RangeStreamOnce for Base {
    fn uncons_range(&mut self, size: usize) -> Result<R, Se> {
        any(RANGE, size as u64, R)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, f: F) -> Result<R, Se> {
        show(f);
        any(WHILE, 0, R)
    }
    fn uncons_while1<F: FnMut(u8) -> bool>(&mut self, f: F) -> ParseResult<R, Se> {
        show(f);
        match any(WHILE1, 0, R) {
            Ok(r) => ParseResult::CommitOk(r),
            Err(e) if nd::bool() => ParseResult::CommitErr(e),
            Err(e) => {
                log().kind = 2;
                ParseResult::PeekErr(e.into())
            }
        }
    }
    fn distance(&self, c: &u8) -> usize {
        called(DISTANCE, *c as u64);
        self.dist
    }
    fn range(&self) -> R {
        R(self.range)
    }
}

/// Which error it is.
pub trait Which {
    fn which(&self) -> u8;
}
impl Which for Se {
    fn which(&self) -> u8 {
        self.0
    }
}
impl Which for easy::Error<u8, R> {
    fn which(&self) -> u8 {
        match self {
            easy::Error::Unexpected(easy::Info::Token(t)) => {
                check!(*t != 0, "the end of the input stays one");
                *t
            }
            e => {
                check!(StreamError::<u8, R>::is_unexpected_end_of_input(e), "errors keep what they say");
                0
            }
        }
    }
}
pub trait Place<P> {
    fn place(&self) -> (u8, u8);
}
impl<P> Place<P> for Er {
    fn place(&self) -> (u8, u8) {
        (self.pos, self.e.0)
    }
}
impl<P> Place<P> for Eb {
    fn place(&self) -> (u8, u8) {
        (self.0.pos, self.0.e.0)
    }
}
impl Place<u8> for easy::Errors<u8, R, u8> {
    fn place(&self) -> (u8, u8) {
        check!(self.errors.len() == 1, "errors keep what they say");
        (self.position, self.errors[0].which())
    }
}

/// Every operation reaches the base once, as it was asked, and the answer comes back.
fn passes<S>(st: &mut S, b: Base, partial: bool)
where
    S: RangeStream<Token = u8, Range = R>,
    StreamErrorFor<S>: Which,
    S::Error: Place<S::Position>,
{
    check!(st.is_partial() == partial, "whether the input is partial is told");
    let c = st.checkpoint();
    let k = nd::below(7);
    let size = nd::usize();
    let (x, y) = (nd::bool(), nd::bool());
    let mut seen = ([0; 2], 0);
    let f = |t: u8| {
        seen.0[seen.1] = t;
        seen.1 += 1;
        if seen.1 == 1 { x } else { y }
    };
    let (op, arg, kind, ans) = match k {
        0 => match st.uncons() {
            Ok(t) => (UNCONS, 0, 0, t),
            Err(e) => (UNCONS, 0, 1, e.which()),
        },
        1 => match st.uncons_range(size) {
            Ok(r) => (RANGE, size as u64, 0, r.0),
            Err(e) => (RANGE, size as u64, 1, e.which()),
        },
        2 => match st.uncons_while(f) {
            Ok(r) => (WHILE, 0, 0, r.0),
            Err(e) => (WHILE, 0, 1, e.which()),
        },
        3 => match st.uncons_while1(f) {
            ParseResult::CommitOk(r) => (WHILE1, 0, 0, r.0),
            ParseResult::CommitErr(e) => (WHILE1, 0, 1, e.which()),
            ParseResult::PeekErr(e) => (WHILE1, 0, 2, e.error.which()),
            ParseResult::PeekOk(_) => (WHILE1, 0, 3, 0),
        },
        4 => match st.reset(c) {
            Ok(()) => (RESET, b.cp as u64, 0, log().ans),
            Err(e) => {
                let (p, w) = Place::<S::Position>::place(&e);
                check!(p == b.pos, "errors keep their place");
                (RESET, b.cp as u64, 1, w)
            }
        },
        5 => {
            check!(st.distance(&c) == b.dist, "distances are those of the stream");
            (DISTANCE, b.cp as u64, 0, log().ans)
        }
        _ => {
            check!(st.range() == R(b.range), "what is left is that of the stream");
            check!(log().calls == 0, "asking for what is left changes nothing");
            return;
        }
    };
    let l = log();
    check!(l.calls == 1 && l.op == op && l.arg == arg, "the operation reaches the stream once, as it was asked");
    check!(l.kind == kind && l.ans == ans, "the answer comes back as it was given");
    check!(k != 2 && k != 3 || seen.1 == 0 || seen.0[0] == l.shown[0] && l.said[0] == x, "the predicate decides");
    check!(k != 2 && k != 3 || seen.1 < 2 || seen.0[1] == l.shown[1] && l.said[1] == y, "the predicate decides");
    cover!(op == WHILE1 && kind == 2 && seen.1 == 2, "an uncommitted error");
    cover!(op == RESET && kind == 1, "a failing reset");
}
fn same_place<S: Positioned>(st: &S, b: &Base)
where
    S::Position: Num,
{
    check!(st.position().num() == b.pos, "the position is that of the stream");
    check!(log().calls == 0, "asking for the position changes nothing");
}

/// A stream with only the required operations.
#[derive(Clone, Copy)]
struct Plain(Base);
impl StreamOnce for Plain {
    type Token = u8;
    type Range = R;
    type Position = u8;
    type Error = Eb;
    fn uncons(&mut self) -> Result<u8, Se> {
        self.0.uncons()
    }
}
impl ResetStream for Plain {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        self.0.cp
    }
    fn reset(&mut self, c: u8) -> Result<(), Eb> {
        self.0.reset(c)
    }
}
impl Positioned for Plain {
    fn position(&self) -> u8 {
        self.0.pos
    }
}
impl RangeStreamOnce for Plain {
    fn uncons_range(&mut self, size: usize) -> Result<R, Se> {
        self.0.uncons_range(size)
    }
    /// Shows the tokens up to the first that fails.
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> Result<R, Se> {
        let n = nd::below(3);
        if n > 0 && f(1) && n > 1 {
            f(2);
        }
        any(WHILE, n as u64, R)
    }
    fn distance(&self, c: &u8) -> usize {
        self.0.distance(c)
    }
    fn range(&self) -> R {
        self.0.range()
    }
}

harnesses! {
    [3] fn partial() { let b = base(); let mut s = PartialStream(b); same_place(&s, &b); passes(&mut s, b, true) }
    [3] fn partial_from() { let b = base(); let mut s = PartialStream::from(b); passes(&mut s, b, true) }
    [3] fn complete() { let b = base(); let mut s = CompleteStream(b); same_place(&s, &b); passes(&mut s, b, false) }
    [3] fn complete_from() { let b = base(); let mut s = CompleteStream::from(b); passes(&mut s, b, false) }
    [3] fn complete_ref() {
        let mut b = base();
        let c = b;
        let s = <&mut CompleteStream<Base>>::from(&mut b);
        same_place(s, &c);
        passes(s, c, false)
    }
    [3] fn maybe() { let b = base(); let p = nd::bool(); let mut s = MaybePartialStream(b, p); same_place(&s, &b); passes(&mut s, b, p) }
    [3] fn reference() { let mut b = base(); let c = b; let mut s = &mut b; same_place(&s, &c); passes(&mut s, c, c.partial) }
    [3] fn reference_twice() { let mut b = base(); let c = b; let mut s = &mut &mut b; passes(&mut s, c, c.partial) }
    [3] fn state_() {
        let b = base();
        let u = nd::u8();
        let mut s = state::Stream { stream: b, state: u };
        same_place(&s, &b);
        passes(&mut s, b, b.partial);
        check!(s.state == u, "the state is left alone");
    }
    [14] fn easy_() { let b = base(); let mut s = easy::Stream(b); same_place(&s, &b); passes(&mut s, b, b.partial) }
    [14] fn easy_from() { let b = base(); let mut s = easy::Stream::from(b); passes(&mut s, b, b.partial) }
    [3] fn span_() { let b = base(); let mut s = span::Stream::<_, Er>::from(b); same_place(&s, &b); passes(&mut s, b, b.partial) }
    [3] fn position_() { let b = base(); let mut s = position::Stream::with_positioner(b, IndexPositioner::new()); passes(&mut s, b, b.partial) }
    [14] fn stacked() {
        let b = base();
        let mut s = easy::Stream(PartialStream(state::Stream { stream: b, state: () }));
        same_place(&s, &b);
        passes(&mut s, b, true)
    }

    /// uncons_while1 of streams that only have uncons_while
    [3] fn default_while1() {
        let mut s = Plain(base());
        let (x, y) = (nd::bool(), nd::bool());
        let mut calls = 0;
        let r = s.uncons_while1(|t| {
            calls += 1;
            check!(t == calls, "the predicate sees the tokens once each, in order");
            if calls == 1 { x } else { y }
        });
        let l = *log();
        check!(l.calls == 1 && l.op == WHILE, "the tokens are taken once");
        let n = l.arg;
        if n > 0 && x {
            check!(r == if l.kind == 0 { ParseResult::CommitOk(R(l.ans)) } else { ParseResult::CommitErr(Se(l.ans)) }, "a token that passes is taken");
        } else {
            check!(matches!(r, ParseResult::PeekErr(ref e) if (e.error == Se(0)) == (n == 0)), "the end of the input is told from a token that does not pass");
        }
    }

    [3] fn uncons_function() {
        let mut b = base();
        let r = uncons(&mut b);
        let l = *log();
        check!(l.calls == 1 && l.op == UNCONS, "one token is taken");
        let e = Eb(Er { pos: b.pos, e: Se(l.ans) });
        check!(match r {
            ParseResult::CommitOk(t) => l.kind == 0 && t == l.ans,
            ParseResult::CommitErr(x) => l.kind == 1 && b.partial && x == e,
            ParseResult::PeekErr(x) => l.kind == 1 && !b.partial && x.error == e,
            ParseResult::PeekOk(_) => false,
        }, "taking a token commits; failing to does only if more may come");
    }
    [3] fn uncons_range_function() {
        let mut b = base();
        let n = nd::usize();
        let r = uncons_range(&mut b, n);
        let l = *log();
        check!(l.calls == 1 && l.op == RANGE && l.arg == n as u64, "one range is taken");
        let e = Eb(Er { pos: b.pos, e: Se(l.ans) });
        check!(match r {
            ParseResult::CommitOk(t) => l.kind == 0 && n > 0 && t == R(l.ans),
            ParseResult::PeekOk(t) => l.kind == 0 && n == 0 && t == R(l.ans),
            ParseResult::CommitErr(x) => l.kind == 1 && b.partial && x == e,
            ParseResult::PeekErr(x) => l.kind == 1 && !b.partial && x.error == e,
        }, "taking something commits; failing to does only if more may come");
    }
    [3] fn uncons_while_function() {
        let mut b = Ends::any();
        let r = uncons_while(&mut b, |_| true);
        let eoi = Eb(Er { pos: b.b.pos, e: Se(0) });
        let e = Eb(Er { pos: b.b.pos, e: Se(b.ans) });
        check!(b.reset, "looking ahead is undone");
        check!(match r {
            ParseResult::CommitErr(x) if b.ok => b.b.partial && b.end && x == eoi,
            ParseResult::CommitErr(x) => b.b.partial && x == e,
            ParseResult::PeekErr(x) => !b.ok && !b.b.partial && x.error == e,
            ParseResult::CommitOk(t) => b.ok && t == R(b.ans) && b.ans > 0 && !(b.b.partial && b.end),
            ParseResult::PeekOk(t) => b.ok && b.ans == 0 && !(b.b.partial && b.end),
        }, "taking something commits; what may go on has to wait for more");
        check!(b.calls == 1, "the tokens are taken once");
    }
    [3] fn uncons_while1_function() {
        let mut b = Ends::any();
        let r = uncons_while1(&mut b, |_| true);
        let eoi = Eb(Er { pos: b.b.pos, e: Se(0) });
        let e = Eb(Er { pos: b.b.pos, e: Se(b.ans) });
        check!(b.reset, "looking ahead is undone");
        let more = b.b.partial && b.end;
        check!(match r {
            ParseResult::CommitErr(x) if more => x == eoi,
            ParseResult::CommitErr(x) => !b.ok && b.commit && b.b.partial && x == e,
            ParseResult::PeekErr(x) if b.commit => !b.ok && !b.b.partial && x.error == e,
            ParseResult::PeekErr(x) => !b.ok && !more && x.error.0.pos == b.b.pos,
            ParseResult::CommitOk(t) => b.ok && t == R(b.ans) && !more,
            ParseResult::PeekOk(_) => false,
        }, "taking something commits; what may go on has to wait for more");
        check!(b.calls == 1, "the tokens are taken once");
    }

    /// A reader as a stream.
    [5, "readers of up to 3 bytes"] fn reader() {
        let mut r = Bytes { d: [nd::u8(), nd::u8(), nd::u8()], n: nd::below(4) as usize, at: 0, failed: 0, interrupts: 1 };
        let mut s = read::Stream::new(&mut r);
        let mut got = [0; 3];
        let mut n = 0;
        let mut fails = 0;
        let mut ended = false;
        let mut i = 0;
        while i < 4 {
            match s.uncons() {
                Ok(t) => {
                    check!(n < 3, "no more bytes than there are");
                    got[n] = t;
                    n += 1;
                }
                Err(read::Error::Io(_)) => fails += 1,
                Err(e) => {
                    check!(e == read::Error::EndOfInput, "only the end and failing reads are errors");
                    ended = true;
                }
            }
            i += 1;
        }
        check!(!s.is_partial(), "a reader is not partial");
        check!(n == r.at && fails == r.failed, "every byte and every failing read is passed on");
        check!(!ended || n == r.n, "the end is told at the end only");
        check!((n < 1 || got[0] == r.d[0]) && (n < 2 || got[1] == r.d[1]) && (n < 3 || got[2] == r.d[2]), "bytes come once each, in order");
        cover!(n == 3 && fails == 1, "all read");
    }
    [3] fn iterator() {
        let d = [nd::u8(), nd::u8()];
        let n = nd::below(3) as usize;
        let mut s = IteratorStream::new(d[..n].iter().cloned());
        let a = s.uncons();
        let b = s.uncons();
        check!(a == if n > 0 { Ok(d[0]) } else { Err(UnexpectedParse::Eoi) }, "items come once each, in order");
        check!(b == if n > 1 { Ok(d[1]) } else { Err(UnexpectedParse::Eoi) }, "items come once each, in order");
        check!(!s.is_partial(), "an iterator is not partial");
    }
}

/// A reader that may fail and be interrupted.
struct Bytes {
    d: [u8; 3],
    n: usize,
    at: usize,
    failed: u8,
    interrupts: u8,
}
impl std::io::Read for Bytes {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 && nd::bool() {
            self.interrupts -= 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.failed == 0 && nd::bool() {
            self.failed = 1;
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        if self.at == self.n || b.is_empty() {
            return Ok(0);
        }
        b[0] = self.d[self.at];
        self.at += 1;
        Ok(1)
    }
}

/// A stream that answers uncons_while in any way, and then stands at its end or not.
#[derive(Clone, Copy)]
struct Ends {
    b: Base,
    end: bool,
    /// whether looking ahead has been undone
    reset: bool,
    ok: bool,
    commit: bool,
    ans: u8,
    calls: u8,
}
impl Ends {
    fn any() -> Self {
        Ends { b: base(), end: nd::bool(), reset: true, ok: false, commit: false, ans: 0, calls: 0 }
    }
}
impl StreamOnce for Ends {
    type Token = u8;
    type Range = R;
    type Position = u8;
    type Error = Eb;
    fn uncons(&mut self) -> Result<u8, Se> {
        if self.end {
            Err(Se(0))
        } else {
            self.reset = false;
            let n = nd::u8();
            if nd::bool() { Ok(n) } else { nd::assume(n != 0); Err(Se(n)) }
        }
    }
    fn is_partial(&self) -> bool {
        self.b.partial
    }
}
impl Positioned for Ends {
    fn position(&self) -> u8 {
        self.b.pos
    }
}
impl ResetStream for Ends {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        check!(self.reset, "checkpoints are taken before looking ahead");
        self.b.cp
    }
    fn reset(&mut self, c: u8) -> Result<(), Eb> {
        check!(c == self.b.cp, "checkpoints are used for what they were taken for");
        self.reset = true;
        Ok(())
    }
}
impl RangeStreamOnce for Ends {
    fn uncons_range(&mut self, size: usize) -> Result<R, Se> {
        self.b.uncons_range(size)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> Result<R, Se> {
        self.calls += 1;
        self.ok = nd::bool();
        self.ans = nd::u8();
        if self.ok { Ok(R(self.ans)) } else { Err(Se(self.ans)) }
    }
    fn uncons_while1<F: FnMut(u8) -> bool>(&mut self, f: F) -> ParseResult<R, Se> {
        match self.uncons_while(f) {
            Ok(r) => ParseResult::CommitOk(r),
            Err(e) => {
                self.commit = nd::bool();
                if self.commit { ParseResult::CommitErr(e) } else { ParseResult::PeekErr(e.into()) }
            }
        }
    }
    fn distance(&self, c: &u8) -> usize {
        self.b.distance(c)
    }
    fn range(&self) -> R {
        self.b.range()
    }
}
