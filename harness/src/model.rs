//! The contracts of the traits `Stream` and `Parser`, as nondeterministic implementations.
//!
//! `St` is an arbitrary stream seen through its position only; the token at position `p` is `p`.
//! `Nd` is an arbitrary parser: on every call it picks any outcome the `Parser` contract allows
//! (`PeekOk` leaves the input where it was; the other three may leave it anywhere ahead) and
//! records the call. A combinator checked against `Nd` is checked for every sub parser whose
//! behaviour is within that contract, whatever its implementation.
use crate::{check, nd};
use combine::error::*;
use combine::parser::*;
use combine::stream::*;
use combine::*;

pub const UNEXP: u8 = 0;
pub const EXP: u8 = 1;
pub const MSG: u8 = 2;
pub const EOI: u8 = 3;
pub const OTHER: u8 = 4;

/// A single error; `val` identifies its contents.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SE {
    pub kind: u8,
    pub val: u8,
}

impl StreamError<u8, u8> for SE {
    fn unexpected_token(t: u8) -> Self {
        SE { kind: UNEXP, val: t }
    }
    fn unexpected_range(t: u8) -> Self {
        SE { kind: UNEXP, val: t }
    }
    fn unexpected_format<T>(_: T) -> Self
    where
        T: std::fmt::Display,
    {
        SE { kind: UNEXP, val: 31 }
    }
    fn unexpected_static_message(m: &'static str) -> Self {
        SE { kind: UNEXP, val: m.as_bytes()[0] & 31 }
    }
    fn expected_token(t: u8) -> Self {
        SE { kind: EXP, val: t }
    }
    fn expected_range(t: u8) -> Self {
        SE { kind: EXP, val: t }
    }
    fn expected_format<T>(_: T) -> Self
    where
        T: std::fmt::Display,
    {
        SE { kind: EXP, val: 31 }
    }
    fn expected_static_message(m: &'static str) -> Self {
        SE { kind: EXP, val: m.as_bytes()[0] & 31 }
    }
    fn message_token(t: u8) -> Self {
        SE { kind: MSG, val: t }
    }
    fn message_range(t: u8) -> Self {
        SE { kind: MSG, val: t }
    }
    fn message_format<T>(_: T) -> Self
    where
        T: std::fmt::Display,
    {
        SE { kind: MSG, val: 31 }
    }
    fn message_static_message(m: &'static str) -> Self {
        SE { kind: MSG, val: m.as_bytes()[0] & 31 }
    }
    #[cfg(feature = "std")]
    fn other<E>(_err: E) -> Self
    where
        E: std::error::Error + Send + Sync + 'static,
    {
        SE { kind: MSG, val: 30 }
    }
    fn end_of_input() -> Self {
        SE { kind: EOI, val: 0 }
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.kind == EOI
    }
    fn into_other<T>(self) -> T
    where
        T: StreamError<u8, u8>,
    {
        match self.kind {
            UNEXP => T::unexpected_token(self.val),
            EXP => T::expected_token(self.val),
            EOI => T::end_of_input(),
            _ => T::message_token(self.val),
        }
    }
}

/// A parse error: position and the sets of its unexpected, expected and message errors.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct E {
    pub pos: u8,
    pub eoi: bool,
    pub un: u32,
    pub ex: u32,
    pub ms: u32,
}

impl E {
    pub const fn new(pos: u8) -> E {
        E { pos, eoi: false, un: 0, ex: 0, ms: 0 }
    }
}

pub fn bit(v: u8) -> u32 {
    1u32 << (v & 31)
}

impl ParseError<u8, u8, u8> for E {
    type StreamError = SE;
    fn empty(pos: u8) -> Self {
        E::new(pos)
    }
    fn position(&self) -> u8 {
        self.pos
    }
    fn set_position(&mut self, p: u8) {
        self.pos = p;
    }
    fn merge(self, other: Self) -> Self {
        use std::cmp::Ordering::*;
        match self.pos.cmp(&other.pos) {
            Less => other,
            Greater => self,
            Equal => E {
                pos: self.pos,
                eoi: self.eoi | other.eoi,
                un: self.un | other.un,
                ex: self.ex | other.ex,
                ms: self.ms | other.ms,
            },
        }
    }
    fn add(&mut self, e: SE) {
        match e.kind {
            UNEXP => self.un |= bit(e.val),
            EXP => self.ex |= bit(e.val),
            EOI => self.eoi = true,
            _ => self.ms |= bit(e.val),
        }
    }
    fn set_expected<F>(self_: &mut Tracked<Self>, info: SE, f: F)
    where
        F: FnOnce(&mut Tracked<Self>),
    {
        let ex = self_.error.ex;
        f(self_);
        self_.error.ex = ex;
        self_.error.add(info);
    }
    fn clear_expected(&mut self) {
        self.ex = 0;
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.eoi
    }
    fn into_other<T>(self) -> T
    where
        T: ParseError<u8, u8, u8>,
    {
        let mut t = T::empty(self.pos);
        if self.eoi {
            t.add(T::StreamError::end_of_input());
        }
        t
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct St {
    pub pos: u8,
    pub limit: u8,
    pub partial: bool,
}

impl StreamOnce for St {
    type Token = u8;
    type Range = u8;
    type Position = u8;
    type Error = E;
    fn uncons(&mut self) -> Result<u8, SE> {
        if self.pos < self.limit {
            self.pos += 1;
            Ok(self.pos - 1)
        } else {
            Err(SE { kind: EOI, val: 0 })
        }
    }
    fn is_partial(&self) -> bool {
        self.partial
    }
}
/// Whether positions are coarse, so that several places have the same one (lines, say).
pub static mut COARSE: bool = false;
impl Positioned for St {
    fn position(&self) -> u8 {
        if unsafe { COARSE } { 0 } else { self.pos }
    }
}
impl ResetStream for St {
    type Checkpoint = u8;
    fn checkpoint(&self) -> u8 {
        self.pos
    }
    fn reset(&mut self, c: u8) -> Result<(), E> {
        self.pos = c;
        Ok(())
    }
}

/// An arbitrary stream.
pub fn any_st(partial: bool) -> St {
    let limit = nd::below(12);
    let pos = nd::within(0, limit);
    St { pos, limit, partial }
}

pub const PEEK_OK: u8 = 0;
pub const COMMIT_OK: u8 = 1;
pub const PEEK_ERR: u8 = 2;
pub const COMMIT_ERR: u8 = 3;
pub const SUSPEND: u8 = 4;

/// State of an `Nd` parser: nothing to resume, suspended, or left behind by a failed run.
pub const FRESH: u8 = 0;
pub const SUSPENDED: u8 = 1;
pub const RESIDUE: u8 = 2;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub id: u8,
    pub entry: u8,
    pub exit: u8,
    pub resumed: bool,
    pub kind: u8,
    pub val: u8,
}

pub const CAP: usize = 10;
pub struct Log {
    pub n: usize,
    pub ev: [Ev; CAP],
    /// From this call on an `Nd` only fails, which bounds loops over it.
    pub fuel: usize,
    /// Set when a combinator resumed a parser whose last run had already failed.
    pub dead_resume: bool,
}
const EV0: Ev = Ev { id: 0, entry: 0, exit: 0, resumed: false, kind: 0, val: 0 };
static mut LOG: Log = Log { n: 0, ev: [EV0; CAP], fuel: CAP, dead_resume: false };

pub fn log() -> &'static mut Log {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}
pub fn start(fuel: usize) {
    *log() = Log { n: 0, ev: [EV0; CAP], fuel, dead_resume: false };
    unsafe { COARSE = false }
}
/// As `start`, on a stream whose positions are coarse.
pub fn start_coarse(fuel: usize) {
    start(fuel);
    unsafe { COARSE = true }
}
pub fn ev(i: usize) -> Ev {
    log().ev[i]
}
pub fn calls() -> usize {
    log().n
}

/// An arbitrary parser, see the module documentation.
#[derive(Clone, Copy, Debug)]
pub struct Nd(pub u8);

/// The error an `Nd` fails with in call `i`.
pub fn nd_err(id: u8, pos: u8, eoi: bool) -> E {
    E { pos, eoi, un: bit(16 + id), ex: 0, ms: 0 }
}

/// An outcome; written as a tree of constants, which lets the verifier see where loops end.
fn any_kind(may_succeed: bool, partial: bool) -> u8 {
    if may_succeed {
        if nd::bool() {
            if nd::bool() {
                return PEEK_OK;
            }
            return COMMIT_OK;
        }
    }
    if nd::bool() {
        return PEEK_ERR;
    }
    if partial && nd::bool() {
        return SUSPEND;
    }
    COMMIT_ERR
}

impl Nd {
    fn run(&mut self, first: bool, input: &mut St, state: &mut u8) -> ParseResult<u8, E> {
        let l = log();
        let entry = input.pos;
        let resumed = !first && *state == SUSPENDED;
        if !first && *state == RESIDUE {
            l.dead_resume = true;
        }
        let i = l.n;
        check!(i < CAP, "model: call log is large enough");
        let kind = any_kind(i < l.fuel, input.partial);
        let exit = if kind == PEEK_OK { entry } else { nd::within(entry, input.limit) };
        // Committing means having consumed input
        nd::assume(kind != COMMIT_OK || exit > entry || resumed);
        // Unique per call; sub parser outputs are opaque to a combinator
        let val = i as u8 + 1;
        l.ev[i] = Ev { id: self.0, entry, exit, resumed, kind, val };
        l.n = i + 1;
        input.pos = exit;
        match kind {
            PEEK_OK => {
                *state = FRESH;
                ParseResult::PeekOk(val)
            }
            COMMIT_OK => {
                *state = FRESH;
                ParseResult::CommitOk(val)
            }
            PEEK_ERR => {
                *state = FRESH;
                ParseResult::PeekErr(nd_err(self.0, entry, false).into())
            }
            COMMIT_ERR => {
                *state = RESIDUE;
                ParseResult::CommitErr(nd_err(self.0, exit, false))
            }
            _ => {
                *state = SUSPENDED;
                ParseResult::CommitErr(nd_err(self.0, input.limit, true))
            }
        }
    }
}

#[macro_export]
macro_rules! fwd_modes {
    ($i:ty) => {
        fn parse_partial(
            &mut self,
            input: &mut $i,
            state: &mut Self::PartialState,
        ) -> combine::error::ParseResult<Self::Output, <$i as combine::StreamOnce>::Error> {
            self.parse_mode(combine::parser::PartialMode::default(), input, state)
        }
        fn parse_first(
            &mut self,
            input: &mut $i,
            state: &mut Self::PartialState,
        ) -> combine::error::ParseResult<Self::Output, <$i as combine::StreamOnce>::Error> {
            self.parse_mode(combine::parser::FirstMode, input, state)
        }
    };
}

impl Parser<St> for Nd {
    type Output = u8;
    type PartialState = u8;
    fwd_modes!(St);
    fn parse_mode_impl<M>(&mut self, m: M, input: &mut St, state: &mut u8) -> ParseResult<u8, E>
    where
        M: ParseMode,
    {
        self.run(m.is_first(), input, state)
    }
    fn add_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(self.0)
    }
}

/// `ParseResult` flattened for comparison.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Out<T> {
    pub kind: u8,
    pub val: Option<T>,
    pub err: Option<E>,
}
pub fn out<T>(r: ParseResult<T, E>) -> Out<T> {
    match r {
        ParseResult::PeekOk(v) => Out { kind: PEEK_OK, val: Some(v), err: None },
        ParseResult::CommitOk(v) => Out { kind: COMMIT_OK, val: Some(v), err: None },
        ParseResult::PeekErr(e) => Out { kind: PEEK_ERR, val: None, err: Some(e.error) },
        ParseResult::CommitErr(e) => Out { kind: COMMIT_ERR, val: None, err: Some(e) },
    }
}

/// A collection that records what it is extended with, and how.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Coll {
    pub n: u8,
    pub v: [u8; 10],
}
impl Extend<u8> for Coll {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = u8>,
    {
        let mut it = iter.into_iter();
        while let Some(x) = it.next() {
            self.v[self.n as usize] = x;
            self.n += 1;
        }
    }
}

/// Runs a parser through `parse_mode` in first mode.
pub fn first<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    let mut s = Default::default();
    out(p.parse_mode(FirstMode, st, &mut s))
}

/// Runs a parser through any of the entry points another parser may use.
pub fn direct<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    let mut s = Default::default();
    out(match nd::below(4) {
        0 => p.parse_mode(FirstMode, st, &mut s),
        1 => p.parse_mode(PartialMode::default(), st, &mut s),
        2 => p.parse_lazy(st),
        _ => p.parse_first(st, &mut s),
    })
}

/// Runs a parser through any entry point; errors may be decorated.
pub fn enter<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    let mut s = Default::default();
    out(match nd::below(6) {
        0 => p.parse_mode(FirstMode, st, &mut s),
        1 => p.parse_mode(PartialMode::default(), st, &mut s),
        2 => p.parse_lazy(st),
        3 => p.parse_stream(st),
        4 => p.parse_committed_mode(FirstMode, st, &mut s),
        _ => p.parse_stream_partial(st, &mut s),
    })
}

/// As `Nd`, with one log per parser, which keeps log indices constant in loops over several
/// parsers. `evk(ID, k).seq` orders calls of different parsers.
#[derive(Clone, Copy, Debug)]
pub struct Nk<const ID: usize>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Evk {
    pub seq: usize,
    pub entry: u8,
    pub exit: u8,
    pub resumed: bool,
    pub kind: u8,
    pub val: u8,
}
const EVK0: Evk = Evk { seq: 99, entry: 0, exit: 0, resumed: false, kind: 9, val: 0 };
pub const CAPK: usize = 6;
pub struct Logk {
    pub n: usize,
    pub ev: [Evk; CAPK],
}
static mut LOGK: [Logk; 4] = [const { Logk { n: 0, ev: [EVK0; CAPK] } }; 4];
static mut SEQ: usize = 0;
static mut FUELK: [usize; 4] = [0; 4];
/// `fuel[ID]` is the number of calls of `ID` that may succeed.
pub fn startk(fuel: [usize; 4]) {
    unsafe {
        LOGK = [const { Logk { n: 0, ev: [EVK0; CAPK] } }; 4];
        SEQ = 0;
        FUELK = fuel;
    }
}
pub fn evk(id: usize, k: usize) -> Evk {
    unsafe { (*std::ptr::addr_of!(LOGK))[id].ev[k] }
}
pub fn callsk(id: usize) -> usize {
    unsafe { (*std::ptr::addr_of!(LOGK))[id].n }
}
pub fn seq() -> usize {
    unsafe { SEQ }
}
impl<const ID: usize> Nk<ID> {
    fn run(&mut self, first: bool, input: &mut St, state: &mut u8) -> ParseResult<u8, E> {
        let l = unsafe { &mut (*std::ptr::addr_of_mut!(LOGK))[ID] };
        let entry = input.pos;
        let resumed = !first && *state == SUSPENDED;
        let k = l.n;
        check!(k < CAPK, "model: call log is large enough");
        let fuel = unsafe { (*std::ptr::addr_of!(FUELK))[ID] };
        if k >= fuel {
            // A constant outcome, which lets the verifier see that loops end here
            unsafe {
                l.ev[k] = Evk { seq: SEQ, entry, exit: entry, resumed, kind: PEEK_ERR, val: 0 };
                SEQ += 1;
            }
            l.n = k + 1;
            *state = FRESH;
            return ParseResult::PeekErr(nd_err(ID as u8, entry, false).into());
        }
        let kind = any_kind(true, input.partial);
        let exit = if kind == PEEK_OK { entry } else { nd::within(entry, input.limit) };
        nd::assume(kind != COMMIT_OK || exit > entry || resumed);
        let val = (ID * 16 + k) as u8;
        unsafe {
            l.ev[k] = Evk { seq: SEQ, entry, exit, resumed, kind, val };
            SEQ += 1;
        }
        l.n = k + 1;
        input.pos = exit;
        match kind {
            PEEK_OK => {
                *state = FRESH;
                ParseResult::PeekOk(val)
            }
            COMMIT_OK => {
                *state = FRESH;
                ParseResult::CommitOk(val)
            }
            PEEK_ERR => {
                *state = FRESH;
                ParseResult::PeekErr(nd_err(ID as u8, entry, false).into())
            }
            COMMIT_ERR => {
                *state = RESIDUE;
                ParseResult::CommitErr(nd_err(ID as u8, exit, false))
            }
            _ => {
                *state = SUSPENDED;
                ParseResult::CommitErr(nd_err(ID as u8, input.limit, true))
            }
        }
    }
}
impl<const ID: usize> Parser<St> for Nk<ID> {
    type Output = u8;
    type PartialState = u8;
    fwd_modes!(St);
    fn parse_mode_impl<M>(&mut self, m: M, input: &mut St, state: &mut u8) -> ParseResult<u8, E>
    where
        M: ParseMode,
    {
        self.run(m.is_first(), input, state)
    }
    fn add_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(ID as u8)
    }
}

/// Runs a parser in partial mode.
pub fn partial<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    let mut s = Default::default();
    out(p.parse_mode(PartialMode::default(), st, &mut s))
}
/// Runs a parser in either mode.
pub fn mode<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    let mut s = Default::default();
    out(if nd::bool() {
        p.parse_mode(FirstMode, st, &mut s)
    } else {
        p.parse_mode(PartialMode::default(), st, &mut s)
    })
}

/// A collection of collections.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Colls {
    pub n: usize,
    pub v: [Coll; 4],
}
impl Extend<Coll> for Colls {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = Coll>,
    {
        let mut it = iter.into_iter();
        while let Some(x) = it.next() {
            self.v[self.n] = x;
            self.n += 1;
        }
    }
}
