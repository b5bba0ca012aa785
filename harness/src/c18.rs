//! C18 decoding from a reader uses every byte of it exactly once, in order.
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::*;
use combine::stream::buf_reader::*;
use combine::stream::*;
use combine::*;
use std::io::{BufRead, Read};

pub const N: usize = 3;
/// What parsers have consumed, over all runs.
static mut SEEN: ([u8; 8], usize) = ([0; 8], 0);
pub fn seen() -> &'static mut ([u8; 8], usize) {
    unsafe { &mut *std::ptr::addr_of_mut!(SEEN) }
}

/// Whether a parser was told that there is no more, and whether a reader said so.
static mut END: (bool, bool) = (false, false);
pub fn end_() -> &'static mut (bool, bool) {
    unsafe { &mut *std::ptr::addr_of_mut!(END) }
}

/// How the last run of a parser ended.
static mut KIND: u8 = 0;
const OK: u8 = 0;
const FAILED: u8 = 1;
const SUSPENDED: u8 = 2;
/// Wants input where none is left.
const EMPTY: u8 = 3;
pub fn kind() -> u8 {
    unsafe { KIND }
}
fn ends(k: u8) {
    unsafe { KIND = k }
}

/// Any parser: on each run it consumes something and ends in any way; it is resumed iff it was suspended.
pub struct Any(pub u8);
impl<I> Parser<I> for Any
where
    I: Stream<Token = u8, Error = UnexpectedParse>,
    I::Position: Default,
{
    type Output = u8;
    type PartialState = u8;
    fn parse_partial(&mut self, input: &mut I, state: &mut u8) -> ParseResult<u8, UnexpectedParse> {
        self.parse_mode(PartialMode::default(), input, state)
    }
    fn parse_first(&mut self, input: &mut I, state: &mut u8) -> ParseResult<u8, UnexpectedParse> {
        self.parse_mode(FirstMode, input, state)
    }
    fn parse_mode_impl<M: ParseMode>(&mut self, m: M, input: &mut I, state: &mut u8) -> ParseResult<u8, UnexpectedParse> {
        let resumed = *state != 0;
        end_().0 |= !input.is_partial();
        let k = nd::below(3);
        let mut any = resumed;
        if k > 0 {
            if let Ok(t) = input.uncons() {
                let s = seen();
                s.0[s.1] = t;
                s.1 += 1;
                any = true;
            }
        }
        if k > 1 {
            if let Ok(t) = input.uncons() {
                let s = seen();
                s.0[s.1] = t;
                s.1 += 1;
            }
        }
        *state = 0;
        ends(FAILED);
        if !any {
            if !input.is_partial() && nd::bool() {
                ends(EMPTY);
                return ParseResult::PeekErr(UnexpectedParse::Eoi.into());
            }
            if nd::bool() {
                return ParseResult::PeekErr(UnexpectedParse::Unexpected.into());
            }
        } else if nd::bool() {
            return ParseResult::CommitErr(UnexpectedParse::Unexpected);
        }
        if input.is_partial() && nd::bool() {
            *state = 1;
            ends(SUSPENDED);
            return ParseResult::CommitErr(UnexpectedParse::Eoi);
        }
        ends(OK);
        if any { ParseResult::CommitOk(self.0) } else { ParseResult::PeekOk(self.0) }
    }
}

/// A reader that gives its data in any pieces.
pub struct Pieces {
    pub data: [u8; N],
    pub n: usize,
    pub at: usize,
    /// Whether a read may still fail, and whether one has
    pub fails: bool,
    pub failed: bool,
}
pub fn pieces(max: u8, fails: bool) -> Pieces {
    *seen() = ([0; 8], 0);
    *end_() = (false, false);
    Pieces { data: [nd::u8(), nd::u8(), nd::u8()], n: nd::below(max + 1) as usize, at: 0, fails, failed: false }
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fails && nd::bool() {
            self.fails = false;
            self.failed = true;
            // Interrupted reads are for the caller to repeat
            return Err(if nd::bool() { std::io::ErrorKind::TimedOut } else { std::io::ErrorKind::Interrupted }.into());
        }
        let left = self.n - self.at;
        if left == 0 || buf.is_empty() {
            end_().1 |= !buf.is_empty();
            return Ok(0);
        }
        let mut m = 1;
        buf[0] = self.data[self.at];
        if left > 1 && buf.len() > 1 && nd::bool() {
            buf[1] = self.data[self.at + 1];
            m = 2;
        }
        self.at += m;
        Ok(m)
    }
}
/// `upto`: how many bytes whole runs have consumed, at least.
pub fn check_all(r: &Pieces, kept: &[u8], ok: bool, upto: usize) {
    let s = seen();
    let gone = r.at - kept.len();
    check!(kept.len() <= r.at, "nothing is there that was not read");
    check!(!end_().0 || end_().1, "input is complete only at the end of the reader");
    check!(if ok { s.1 == gone } else { upto <= gone && gone <= s.1 }, "every byte read is either consumed or kept");
    let mut i = 0;
    while i < N {
        if i < r.at {
            check!(i >= s.1 || s.0[i] == r.data[i], "bytes are consumed once, in order");
            check!(i < gone || kept[i - gone] == r.data[i], "what has not been consumed is kept");
        }
        i += 1;
    }
}
/// Counts what has been consumed.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Count(pub usize);
impl position::Positioner<u8> for Count {
    type Position = Count;
    type Checkpoint = Count;
    fn position(&self) -> Count {
        *self
    }
    fn update(&mut self, _: &u8) {
        self.0 += 1
    }
    fn checkpoint(&self) -> Count {
        *self
    }
    fn reset(&mut self, c: Count) {
        *self = c
    }
}
impl<'a> position::RangePositioner<u8, &'a [u8]> for Count {
    fn update_range(&mut self, r: &&'a [u8]) {
        self.0 += r.len()
    }
}
/// Whether it was a read that failed.
pub fn io(e: decoder::Error<UnexpectedParse, Count>) -> bool {
    match e {
        decoder::Error::Parse(_) => false,
        decoder::Error::Io { position, .. } => {
            check!(position.0 == seen().1, "a failing read is reported where it happened");
            true
        }
    }
}
macro_rules! run {
    ($d:expr, $r:expr, $v:expr) => {
        combine::decode!($d, $r, Any($v), |i, p| position::Stream::with_positioner(i, p)).map_err(io)
    };
}
pub fn outcome(x: &Result<u8, bool>, v: u8) {
    check!(x.map_or(true, |x| x == v), "the output is that of the parser");
}
fn once(n: u8, fails: bool) {
    let mut r = pieces(n, fails);
    let mut d: Decoder<u8, Count> = Decoder::new();
    let x = run!(d, r, 7);
    outcome(&x, 7);
    check!(x != Err(true) || r.failed, "only a failing read is reported as one");
    check_all(&r, d.buffer(), x != Err(false), 0);
    check!(d.position().0 == seen().1, "the position tells what has been consumed");
    cover!(x.is_ok() && seen().1 == n as usize, "decoded");
    cover!(!fails || x == Err(true), "a read failed");
}
fn twice(n: u8, fails: bool) {
    let mut r = pieces(n, fails);
    let mut d: Decoder<u8, Count> = Decoder::new();
    let x = run!(d, r, 7);
    nd::assume(x != Err(false));
    let one = seen().1;
    let x = run!(d, r, 9);
    outcome(&x, 9);
    check_all(&r, d.buffer(), x != Err(false), one);
    check!(d.position().0 == seen().1, "the position tells what has been consumed");
    cover!(x.is_ok() && one == 1 && seen().1 == 2, "decoded twice");
}
/// One call of decode or decode_tokio.
fn decode_(tokio: bool) {
    let r = pieces(3, false);
    let partial = nd::bool();
    let mut st = 0;
    let mut s = MaybePartialStream(&r.data[..r.n], partial);
    let x = if tokio { decode_tokio(Any(7), &mut s, &mut st) } else { decode(Any(7), &mut s, &mut st) };
    let k = kind();
    match &x {
        Ok((Some(v), n)) => check!(*v == 7 && *n == seen().1 && k == OK, "an output comes with what has been consumed"),
        Ok((None, n)) => {
            check!(*n == seen().1, "what has been consumed is told even if more is needed");
            // A parser that fails at the end without having consumed anything says it is the end
            let end = k != OK && seen().1 == 0 && r.n == 0;
            check!(if partial { k == SUSPENDED && st == 1 || end } else { tokio && end }, "more is asked for exactly when it is missing");
        }
        Err(_) => check!(k == FAILED || k == EMPTY, "a failing parser fails"),
    }
    check!(k != SUSPENDED || x == Ok((None, seen().1)), "more is asked for exactly when it is missing");
    check!(!tokio || k != EMPTY || partial || r.n > 0 || x == Ok((None, 0)), "the end of the input is the end of decoding");
    check!(s.0.len() == r.n - seen().1 || x.is_err(), "the input is left behind what has been consumed");
    cover!(matches!(x, Ok((None, 1))), "more is needed");
}

harnesses! {
    [5, "up to 2 bytes of input"] fn once2() { once(2, true) }
    [6, "up to 3 bytes of input"] fn once3() { once(3, false) }
    [5, "up to 2 bytes of input"] fn twice2() { twice(2, true) }
    [5, "up to 3 bytes of input"] fn decode_one() { decode_(false) }
    [5, "up to 3 bytes of input"] fn decode_tokio_one() { decode_(true) }
    /// BufReader as a reader by itself.
    [5, "up to 3 bytes of input"] fn buf_reader() {
        let mut b = BufReader::with_capacity(nd::below(3) as usize, pieces(3, true));
        let mut i = 0;
        while i < 3 {
            let mut t = [0; 2];
            let w = nd::below(2) as usize + 1;
            match b.read(&mut t[..w]) {
                Ok(k) => {
                    check!(k <= w && (k > 0 || b.get_ref().at == b.get_ref().n), "a read gives something until the end");
                    let s = seen();
                    if k > 0 { s.0[s.1] = t[0]; s.1 += 1; }
                    if k > 1 { s.0[s.1] = t[1]; s.1 += 1; }
                }
                Err(_) => check!(b.get_ref().failed, "only a failing read is reported as one"),
            }
            i += 1;
        }
        check_all(b.get_ref(), b.buffer(), true, 0);
        cover!(seen().1 == 3, "all read");
    }
    [5, "up to 3 bytes of input"] fn buf_reader_fill() {
        let mut b = BufReader::with_capacity(nd::below(3) as usize, pieces(3, true));
        let mut i = 0;
        while i < 3 {
            let mut k = 0;
            if let Ok(f) = b.fill_buf() {
                k = nd::below(f.len() as u8 + 1) as usize;
                nd::assume(k <= 2);
                let s = seen();
                if k > 0 { s.0[s.1] = f[0]; s.1 += 1; }
                if k > 1 { s.0[s.1] = f[1]; s.1 += 1; }
                check!(f.len() > 0 || b.get_ref().at == b.get_ref().n, "there is something until the end");
            }
            b.consume(k);
            i += 1;
        }
        check_all(b.get_ref(), b.buffer(), true, 0);
        cover!(seen().1 == 3, "all read");
    }
}
