//! C15 a failed parse reports where it failed, what is there, and what would have been accepted.
use crate::model::*;
use crate::nd;
use crate::{check, cover, fwd_modes, harnesses};
use combine::error::*;
use combine::parser::*;
use combine::stream::*;
use combine::*;

/// As `Nk`; also tells what could follow once it has committed (bit 8 + ID).
#[derive(Clone, Copy)]
pub struct Nx<const ID: usize>;
impl<const ID: usize> Parser<St> for Nx<ID> {
    type Output = u8;
    type PartialState = u8;
    fwd_modes!(St);
    fn parse_mode_impl<M: ParseMode>(&mut self, m: M, input: &mut St, state: &mut u8) -> ParseResult<u8, E> {
        Nk::<ID>.parse_mode(m, input, state)
    }
    fn add_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(ID as u8)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<E>) {
        e.error.ex |= bit(8 + ID as u8)
    }
}
fn top<P: Parser<St>>(p: &mut P, st: &mut St) -> Out<P::Output> {
    if nd::bool() {
        out(p.parse_stream(st))
    } else {
        let mut s = Default::default();
        out(p.parse_stream_partial(st, &mut s))
    }
}
/// What must be reported, apart from what was found.
#[derive(Clone, Copy)]
struct Want {
    kind: u8,
    pos: u8,
    un: u32,
    ex: u32,
    ms: u32,
    /// Also allowed: what could follow inside of a completed nested sequence is not known in detail
    ex2: u32,
    passed_on: bool,
}
const WANT: Want = Want { kind: PEEK_OK, pos: 0, un: 0, ex: 0, ms: 0, ex2: 0, passed_on: false };
/// Parts `lo..n` run one after the other, each once; `g` are the first and last part of a nested sequence.
fn seq_want(lo: usize, n: usize, g: (usize, usize)) -> Want {
    let mut w = WANT;
    let mut last = 99;
    let mut k = lo;
    while k < n {
        let e = evk(k, 0);
        if k == g.1 + 1 && last >= g.0 && last < g.1 {
            w.ex2 = bit(8 + g.1 as u8);
        }
        match e.kind {
            PEEK_OK => {
                w.ex |= bit(k as u8);
                w.ex2 |= bit(k as u8);
            }
            COMMIT_OK => {
                w.kind = COMMIT_OK;
                w.ex = bit(8 + k as u8);
                w.ex2 = w.ex;
                last = k;
            }
            PEEK_ERR => {
                w.ex |= bit(k as u8);
                w.ex2 |= bit(k as u8);
                w.un = bit(16 + k as u8);
                w.kind = if w.kind == COMMIT_OK { COMMIT_ERR } else { PEEK_ERR };
                w.pos = e.entry;
                return w;
            }
            _ => return Want { kind: COMMIT_ERR, pos: e.exit, un: bit(16 + k as u8), passed_on: true, ..WANT },
        }
        k += 1;
    }
    w
}
/// `a`, and if that failed without committing `b` from the same place.
fn or_want(a: Want, b: Want) -> Want {
    if a.kind != PEEK_ERR {
        a
    } else if b.kind == PEEK_ERR {
        Want { un: a.un | b.un, ex: a.ex | b.ex, ex2: a.ex2 | b.ex2, ..b }
    } else {
        b
    }
}
/// The error of `r` says exactly what `w` says, and what was found at the place of the failure.
fn check_want<T>(r: &Out<T>, w: &Want, st: &St) {
    check!(r.kind == w.kind, "the outcome is that of the parts");
    if let Some(e) = r.err {
        check!(e.pos == w.pos, "an error is placed where the parser failed");
        check!(e.ms == w.ms, "exactly the messages asked for are reported");
        if w.passed_on {
            check!(e.un == w.un && e.ex == w.ex, "a committed error is passed on as it is");
        } else {
            check!(e.ex == w.ex || e.ex == w.ex2, "expected is what would have been accepted there, and nothing else");
            check!(e.un == w.un | if w.pos < st.limit { bit(w.pos) } else { 0 }, "unexpected is what was found there");
            check!(e.eoi == (w.pos == st.limit) || w.kind == COMMIT_ERR, "the end of the input is reported where it is");
        }
    }
}
fn go<P: Parser<St>>(mut p: P, fuel: usize) -> (Out<P::Output>, St, St) {
    let mut st = any_st(false);
    let before = st;
    startk([fuel; 4]);
    let r = top(&mut p, &mut st);
    (r, st, before)
}
fn seq_<P: Parser<St>>(p: P, n: usize, g: (usize, usize)) {
    let (r, st, _) = go(p, 1);
    let w = seq_want(0, n, g);
    check_want(&r, &w, &st);
    cover!(r.kind == PEEK_ERR && callsk(n - 1) == 1, "the last part fails");
    cover!(n == 1 || r.kind == COMMIT_ERR && !w.passed_on, "a part fails after another committed");
}
const NONE: (usize, usize) = (98, 98);
const W: u32 = 1 << (b'w' & 31);
const V: u32 = 1 << (b'v' & 31);
fn leaf<P: Parser<St>>(mut p: P, ex: u32) {
    let mut st = any_st(false);
    let b = st.pos;
    let r = top(&mut p, &mut st);
    if let Some(e) = r.err {
        check!(e.pos == b, "an error is placed where the parser failed");
        check!(e.ex == ex, "expected is what would have been accepted there, and nothing else");
        check!(e.ms == 0 && e.un == if b < st.limit { bit(b) } else { 0 } && e.eoi == (b == st.limit), "unexpected is what was found there");
    }
    cover!(r.err.is_some(), "failure");
}

harnesses! {
    [5] fn one() { seq_(Nx::<0>, 1, NONE) }
    [5] fn tuple1() { seq_((Nx::<0>,), 1, NONE) }
    [5] fn tuple2() { seq_((Nx::<0>, Nx::<1>), 2, NONE) }
    [5] fn tuple3() { seq_((Nx::<0>, Nx::<1>, Nx::<2>), 3, NONE) }
    [5] fn tuple4() { seq_((Nx::<0>, Nx::<1>, Nx::<2>, Nx::<3>), 4, NONE) }
    [5] fn nested_right() { seq_((Nx::<0>, (Nx::<1>, Nx::<2>)), 3, NONE) }
    [5] fn nested_right2() { seq_((Nx::<0>, (Nx::<1>, (Nx::<2>, Nx::<3>))), 4, NONE) }
    [5] fn nested_right3() { seq_((Nx::<0>, Nx::<1>, (Nx::<2>, Nx::<3>)), 4, NONE) }
    [5] fn with_with() { seq_(Nx::<0>.with(Nx::<1>.with(Nx::<2>.with(Nx::<3>))), 4, NONE) }
    [5] fn nested_left() { seq_(((Nx::<0>, Nx::<1>), Nx::<2>), 3, (0, 1)) }
    [5] fn nested_mid() { seq_((Nx::<0>, (Nx::<1>, Nx::<2>), Nx::<3>), 4, (1, 2)) }
    [5] fn with_skip() { seq_(Nx::<0>.with(Nx::<1>).skip(Nx::<2>), 3, (0, 1)) }
    [5] fn skip_then() { seq_((Nx::<0>.skip(Nx::<1>), Nx::<2>), 3, (0, 1)) }
    [5] fn with_then() { seq_((Nx::<0>.with(Nx::<1>), Nx::<2>), 3, (0, 1)) }
    [5] fn skip_with() { seq_(Nx::<0>.skip(Nx::<1>).with(Nx::<2>), 3, (0, 1)) }
    [5] fn between_() { seq_(between(Nx::<0>, Nx::<2>, Nx::<1>), 3, NONE) }
    [5] fn mapped() { seq_((Nx::<0>.map(|x| x), Nx::<1>.map_input(|x, _| x)).map(|x| x), 2, NONE) }
    /// The parser that a first one gave.
    [5] fn then_() {
        let (r, st, _) = match nd::below(3) {
            0 => go(Nx::<0>.then(|_| Nx::<1>), 1),
            1 => go(Nx::<0>.then_ref(|_| Nx::<1>).map(|(_, x)| x), 1),
            _ => go(Nx::<0>.then_partial(|_| Nx::<1>), 1),
        };
        let mut w = seq_want(0, 2, NONE);
        w.ex2 = w.ex & !bit(8);
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR && callsk(1) == 1, "the last part fails");
        cover!(r.kind == COMMIT_ERR && !w.passed_on, "the last part fails, committed");
    }
    /// A refused output is an error where its parser started.
    [5] fn and_then_() {
        let c = nd::bool();
        let (r, st, b) = go(Nx::<0>.and_then(|x| if c { Ok(x) } else { Err(SE { kind: MSG, val: 23 }) }), 1);
        let mut w = seq_want(0, 1, NONE);
        if !c && w.kind <= COMMIT_OK {
            check!(r.kind == w.kind + 2, "the outcome is that of the parts");
            let e = r.err.unwrap();
            check!(e.pos == b.pos && e.ms == W, "a refused output is an error where its parser started");
        } else {
            check_want(&r, &w, &st);
        }
        cover!(!c && r.kind == COMMIT_ERR, "refused");
    }
    /// Before a nested sequence that has consumed something.
    [5] fn nested_committed() {
        let (r, st, _) = go((Nx::<0>, (Nx::<1>, Nx::<2>), Nx::<3>), 1);
        nd::assume(evk(0, 0).kind == COMMIT_OK && evk(1, 0).kind == PEEK_OK && evk(2, 0).kind == PEEK_OK);
        check_want(&r, &seq_want(0, 4, NONE), &st);
        cover!(r.kind == COMMIT_ERR, "the last part fails");
    }
    [5] fn or_() {
        let (r, st, _) = go(Nx::<0>.or(Nx::<1>).or(Nx::<2>), 1);
        let w = or_want(or_want(seq_want(0, 1, NONE), seq_want(1, 2, NONE)), seq_want(2, 3, NONE));
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR, "all fail");
    }
    [5] fn choice_seqs() {
        let (r, st, _) = go(choice(((Nx::<0>, Nx::<1>), (Nx::<2>, Nx::<3>).map(|x| x))), 1);
        let w = or_want(seq_want(0, 2, NONE), seq_want(2, 4, NONE));
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR && callsk(1) == 1 && callsk(3) == 0, "second part of the first, first part of the second");
    }
    [5] fn choice_in_seq() {
        let (r, st, b) = go((Nx::<0>, choice((Nx::<1>, Nx::<2>)), Nx::<3>), 1);
        let mut w = seq_want(0, 2, NONE);
        if callsk(2) == 1 {
            // 1 failed without committing
            let (c, k) = (evk(2, 0), w.kind == COMMIT_ERR);
            w = match c.kind {
                PEEK_OK | COMMIT_OK => Want { kind: if k || c.kind == COMMIT_OK { COMMIT_OK } else { PEEK_OK }, un: 0, ex: if c.kind == COMMIT_OK { 0 } else { w.ex | bit(2) }, ..w },
                PEEK_ERR => Want { un: w.un | bit(18), ex: w.ex | bit(2), ..w },
                _ => seq_want(2, 3, NONE),
            };
        } else if w.kind == COMMIT_OK && evk(1, 0).kind == COMMIT_OK {
            w.ex = 0;
        } else if w.kind <= COMMIT_OK {
            // What the other alternative accepts would have been fine as well
            w.ex |= bit(2);
        }
        if w.kind <= COMMIT_OK {
            let d = seq_want(3, 4, NONE);
            // Known finding choice_then_part
            nd::assume(w.kind == COMMIT_OK || d.kind != PEEK_ERR);
            let k = w.kind == COMMIT_OK;
            w = match d.kind {
                PEEK_ERR => Want { kind: if k { COMMIT_ERR } else { PEEK_ERR }, ex: w.ex | bit(3), ..d },
                PEEK_OK => w,
                _ => d,
            };
        }
        w.ex2 = w.ex;
        check_want(&r, &w, &st);
        cover!(r.kind == COMMIT_ERR && callsk(3) == 1, "the last part fails");
    }
    [5] fn choice_array() {
        let mut st = any_st(false);
        let b = st.pos;
        start(10);
        let mut p = choice([Nd(0), Nd(1), Nd(2)]);
        let r = top(&mut p, &mut st);
        if r.kind == PEEK_ERR {
            check_want(&r, &Want { kind: PEEK_ERR, pos: b, un: bit(16) | bit(17) | bit(18), ex: 7, ..WANT }, &st);
        }
        cover!(r.kind == PEEK_ERR, "all fail");
    }
    [8] fn choice_array_seqs() {
        let mut st = any_st(false);
        let b = st.pos;
        start(10);
        let mut p = choice([(Nd(0), Nd(1)), (Nd(2), Nd(3)), (Nd(4), Nd(5))]);
        let r = top(&mut p, &mut st);
        if r.kind == PEEK_ERR {
            let (mut un, mut ex, mut k) = (0, 0, 0);
            while k < 6 {
                if k < calls() {
                    ex |= bit(ev(k).id);
                    un |= if ev(k).kind == PEEK_ERR { bit(16 + ev(k).id) } else { 0 };
                }
                k += 1;
            }
            check_want(&r, &Want { kind: PEEK_ERR, pos: b, un, ex, ..WANT }, &st);
        }
        cover!(r.kind == PEEK_ERR && calls() == 4, "one alternative fails in its second part");
    }
    [5] fn optional_in_seq() {
        let (r, st, _) = go((Nx::<0>, optional(Nx::<1>), Nx::<2>), 1);
        nd::assume(callsk(2) == 1 && evk(2, 0).kind == PEEK_ERR && evk(1, 0).kind != COMMIT_OK);
        let k = evk(0, 0).kind == COMMIT_OK;
        let ex = bit(if k { 8 } else { 0 }) | bit(1) | bit(2);
        check_want(&r, &Want { kind: if k { COMMIT_ERR } else { PEEK_ERR }, pos: evk(2, 0).entry, un: bit(18), ex, ex2: ex, ..WANT }, &st);
        cover!(k, "committed");
    }
    /// What a repetition could have gone on with is expected after it.
    [6, "up to 2 repetitions"] fn many_in_seq() {
        let mut st = any_st(false);
        startk([2, 1, 1, 1]);
        let m = nd::bool();
        let r = if m { top(&mut (many::<Coll, _, _>(Nx::<0>), Nx::<1>).map(|_| ()), &mut st) } else { top(&mut (skip_many1(Nx::<0>), Nx::<1>).map(|_| ()), &mut st) };
        nd::assume(callsk(1) == 1 && evk(1, 0).kind == PEEK_ERR);
        check_want(&r, &Want { kind: r.kind, pos: evk(1, 0).entry, un: bit(17), ex: 3, ..WANT }, &st);
        cover!(r.kind == COMMIT_ERR, "committed");
        cover!(r.kind == PEEK_ERR, "not committed");
    }
    [5] fn expected_() {
        let (r, st, _) = go((Nx::<0>.expected("w"), Nx::<1>.expected("v")), 1);
        let mut w = seq_want(0, 2, NONE);
        if !w.passed_on && r.err.is_some() {
            w.ex = w.ex & !3 | if w.ex & 1 != 0 { W } else { 0 } | if w.ex & 2 != 0 { V } else { 0 };
        }
        w.ex2 = w.ex;
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR && callsk(1) == 1, "the last part fails");
    }
    /// What a whole sequence is called replaces what its parts expect, unless it has committed.
    [5] fn expected_seq() {
        let (r, st, _) = go((Nx::<0>, Nx::<1>).expected("w"), 1);
        let mut w = seq_want(0, 2, NONE);
        if w.kind == PEEK_ERR {
            w.ex = W;
            w.ex2 = W;
        }
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR && callsk(1) == 1, "the last part fails");
    }
    [5] fn expected_or() {
        let (r, st, _) = go(Nx::<0>.or(Nx::<1>.expected("w")).or(Nx::<2>), 1);
        nd::assume(r.kind == PEEK_ERR);
        check!(r.err.map_or(0, |e| e.ex) == 1 | W | 4, "expected is what would have been accepted there, and nothing else");
        cover!(true, "all fail");
    }
    [5] fn message_() {
        let (r, st, _) = go((Nx::<0>, Nx::<1>).message("w"), 1);
        let mut w = seq_want(0, 2, NONE);
        w.ms = W;
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR, "not committed");
        cover!(r.kind == COMMIT_ERR, "committed");
    }
    [5] fn silent_() {
        let (r, st, _) = go((Nx::<0>, Nx::<1>).silent(), 1);
        let mut w = seq_want(0, 2, NONE);
        w.ex = 0;
        w.ex2 = 0;
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR, "not committed");
        cover!(r.kind == COMMIT_ERR, "committed");
    }
    [5] fn silent_part() {
        let (r, st, _) = go((Nx::<0>.silent(), Nx::<1>, Nx::<2>.silent()), 1);
        let mut w = seq_want(0, 3, NONE);
        let hidden = bit(0) | bit(2) | bit(8) | bit(10);
        w.ex &= !hidden;
        w.ex2 = w.ex;
        check_want(&r, &w, &st);
        cover!(r.kind == PEEK_ERR && callsk(2) == 1, "the last part fails");
    }
    /// Of alternatives that give up at different places the one that got furthest is reported.
    [5] fn furthest() {
        let (r, st, b) = go(choice((attempt(Nx::<0>), attempt(Nx::<1>), Nx::<2>)), 1);
        nd::assume(r.kind == PEEK_ERR);
        let at = |k: usize| if evk(k, 0).kind == COMMIT_ERR { evk(k, 0).exit } else { b.pos };
        let far = at(0).max(at(1)).max(at(2));
        let e = r.err.unwrap();
        check!(e.pos == far, "an error is placed at the furthest failure");
        let mut k = 0;
        while k < 3 {
            check!((e.un & bit(16 + k as u8) != 0) == (at(k) == far), "exactly the errors of the furthest failures are reported");
            k += 1;
        }
        cover!(far > at(0) && far > at(2), "the second got furthest");
    }
    [5] fn token_() {
        let t = nd::below(12);
        leaf(token(t), bit(t))
    }
    [5] fn eof_() { leaf(eof(), bit(b'e')) }
    [5] fn satisfy_() {
        let t = nd::below(12);
        leaf(satisfy(|x| x == t), 0)
    }
    [5] fn any_() { leaf(any(), 0) }
    [5] fn one_of_() { leaf(one_of([3u8, 5].iter().copied()), bit(3) | bit(5)) }
    [5] fn none_of_() { leaf(none_of([3u8, 5].iter().copied()), 0) }
    [5] fn unexpected_() {
        let mut st = any_st(false);
        let b = st.pos;
        let r = top(&mut unexpected_any::<_, _, ()>("w"), &mut st);
        let e = r.err.unwrap();
        check!(r.kind == PEEK_ERR && e.pos == b && e.ex == 0 && e.ms == 0 && e.un == W | if b < st.limit { bit(b) } else { 0 }, "unexpected reports what it was given");
    }
}
