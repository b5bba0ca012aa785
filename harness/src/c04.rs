//! C04 repetition: a parser is run again and again, each run from where the previous one stopped,
//! until it fails without committing or the maximum is reached; outputs are kept in order.
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::*;

pub struct Rep {
    pub kind: u8,
    pub pos: u8,
    pub out: Coll,
    pub calls: usize,
    pub committed: bool,
}

/// What repeating parser `id` at least `min` and at most `max` times must do.
pub fn spec_repeat(id: u8, min: usize, max: usize, b: u8) -> Rep {
    let mut r = Rep { kind: PEEK_OK, pos: b, out: Coll::default(), calls: 0, committed: false };
    while (r.out.n as usize) < max {
        check!(r.calls < calls(), "the parser is run until it fails or the maximum is reached");
        let e = ev(r.calls);
        r.calls += 1;
        check!(e.id == id && e.entry == r.pos, "each run starts where the previous one stopped");
        match e.kind {
            PEEK_OK | COMMIT_OK => {
                r.committed |= e.kind == COMMIT_OK;
                r.out.v[r.out.n as usize] = e.val;
                r.out.n += 1;
                r.pos = e.exit;
            }
            PEEK_ERR => break,
            _ => {
                r.kind = COMMIT_ERR;
                return r;
            }
        }
    }
    r.kind = match ((r.out.n as usize) < min, r.committed) {
        (false, false) => PEEK_OK,
        (false, true) => COMMIT_OK,
        (true, false) => PEEK_ERR,
        (true, true) => COMMIT_ERR,
    };
    r
}

pub fn check_rep<T>(s: &Rep, r: &Out<T>, st: &St) {
    check!(r.kind == s.kind, "repetition succeeds exactly when the parser stopped without committing after enough runs, and commits iff a run did");
    check!(calls() == s.calls, "nothing runs after the repetition has ended");
    if r.kind <= COMMIT_OK {
        check!(st.pos == s.pos, "input is left after the last successful run");
    }
}
pub fn check_coll(s: &Rep, r: &Out<Coll>, st: &St) {
    check_rep(s, r, st);
    if let Some(v) = r.val {
        check!(v.n == s.out.n, "every output is kept exactly once");
        let mut i = 0;
        while i < 5 {
            check!(i >= v.n as usize || v.v[i] == s.out.v[i], "outputs are kept in order");
            i += 1;
        }
    }
    cover!(r.kind == COMMIT_OK && s.out.n == 3, "three");
    cover!(r.kind == COMMIT_ERR && s.out.n >= 1, "commit err");
}

harnesses! {
    [8, "at most 3 successful runs"] fn many_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut many::<Coll, _, _>(Nd(1)), &mut st);
        check_coll(&spec_repeat(1, 0, 9, b), &r, &st);
        cover!(r.kind == PEEK_OK, "peek ok");
    }
    [8, "at most 3 successful runs"] fn many1_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut many1::<Coll, _, _>(Nd(1)), &mut st);
        check_coll(&spec_repeat(1, 1, 9, b), &r, &st);
        if r.kind == PEEK_ERR {
            check!(r.err.unwrap().un & bit(17) != 0, "the error of the parser is kept");
        }
        cover!(r.kind == PEEK_ERR, "peek err");
    }
    [8, "at most 2 successful runs"] fn skip_many_() {
        start(2);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut skip_many(Nd(1)), &mut st);
        check_rep(&spec_repeat(1, 0, 9, b), &r, &st);
        cover!(r.kind == COMMIT_OK, "commit ok");
    }
    [8, "at most 2 successful runs"] fn skip_many1_() {
        start(2);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut skip_many1(Nd(1)), &mut st);
        check_rep(&spec_repeat(1, 1, 9, b), &r, &st);
        cover!(r.kind == COMMIT_OK, "commit ok");
        cover!(r.kind == PEEK_ERR, "peek err");
    }
    [8, "at most 3 successful runs"] fn count_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let n = nd::usize();
        let r = enter(&mut count::<Coll, _, _>(n, Nd(1)), &mut st);
        check_coll(&spec_repeat(1, 0, n.min(9), b), &r, &st);
        cover!(n == 0, "zero");
        cover!(n == 2 && calls() == 2 && r.kind == COMMIT_OK, "maximum");
        cover!(n == usize::MAX && r.kind == COMMIT_OK, "max");
    }
    [8, "at most 3 successful runs"] fn count_min_max_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let (min, max) = (nd::usize(), nd::usize());
        nd::assume(min <= max);
        let r = enter(&mut count_min_max::<Coll, _, _>(min, max, Nd(1)), &mut st);
        check_coll(&spec_repeat(1, min, max.min(9), b), &r, &st);
        if min > 3 {
            check!(r.kind >= PEEK_ERR, "too few runs is a failure");
        }
        cover!(min == 2 && max == 2 && r.kind == COMMIT_OK, "exact");
        cover!(min == 2 && r.kind == PEEK_ERR, "too few peek");
        cover!(min == 2 && r.kind == COMMIT_ERR && ev(1).kind == PEEK_ERR, "too few commit");
    }
    [8, "at most 2 successful runs"] fn skip_count_() {
        start(2);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let n = nd::usize();
        let r = direct(&mut skip_count(n, Nd(1)), &mut st);
        check_rep(&spec_repeat(1, 0, n.min(9), b), &r, &st);
        cover!(n == 1 && r.kind == COMMIT_OK, "maximum");
    }
    [8, "at most 2 successful runs"] fn skip_count_min_max_() {
        start(2);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let (min, max) = (nd::usize(), nd::usize());
        nd::assume(min <= max);
        let r = direct(&mut skip_count_min_max(min, max, Nd(1)), &mut st);
        check_rep(&spec_repeat(1, min, max.min(9), b), &r, &st);
        cover!(min == 1 && max == 1 && r.kind == COMMIT_OK, "exact");
        cover!(min == 1 && r.kind == PEEK_ERR, "too few");
    }
    /// The iterator interface used by the other repetition parsers.
    [8, "at most 3 successful runs"] fn iter_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut c = Coll::default();
        let mut p = Nd(1);
        let mut it = p.iter(&mut st);
        c.extend(it.by_ref());
        let r = out(it.into_result(c).into());
        check_coll(&spec_repeat(1, 0, 9, b), &r, &st);
    }
    /// Stopping early leaves the rest of the input alone.
    [8] fn iter_stop() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut p = Nd(1);
        let n = nd::below(3);
        let mut c = Coll::default();
        let mut it = p.iter(&mut st);
        c.extend(it.by_ref().take(n as usize));
        let r = out(it.into_result(c).into());
        check_rep(&spec_repeat(1, 0, n as usize, b), &r, &st);
        cover!(n == 2 && r.kind == COMMIT_OK, "two");
    }
    [8, "at most 3 items"] fn iterate_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let n = nd::below(4);
        let seen = std::cell::Cell::new(0u8);
        let mut p = iterate::<Coll, _, _, _, _>(0..n, |i: &u8, _: &mut St| {
            check!(*i as usize == calls() && *i == seen.get(), "a parser is made for each item, in order, when it is its turn");
            seen.set(seen.get() + 1);
            Nd(1 + *i)
        });
        let r = enter(&mut p, &mut st);
        let mut pos = b;
        let mut committed = false;
        let mut k = 0;
        let mut kind = 9;
        while k < n {
            check!(calls() > k as usize, "the parser of every item is run");
            let e = ev(k as usize);
            check!(e.id == 1 + k && e.entry == pos, "the parsers of the items run one after another");
            match e.kind {
                PEEK_OK | COMMIT_OK => {
                    committed |= e.kind == COMMIT_OK;
                    pos = e.exit;
                    k += 1;
                    if let Some(v) = r.val {
                        check!(v.v[k as usize - 1] == e.val, "the outputs are kept in order");
                    }
                }
                PEEK_ERR => {
                    kind = if committed { COMMIT_ERR } else { PEEK_ERR };
                    break;
                }
                _ => {
                    kind = COMMIT_ERR;
                    break;
                }
            }
        }
        if kind == 9 {
            kind = if committed { COMMIT_OK } else { PEEK_OK };
        } else {
            k += 1;
        }
        check!(r.kind == kind, "iterate succeeds iff the parser of every item did and commits iff one did");
        check!(calls() == k as usize, "nothing runs after a failure");
        if let Some(v) = r.val {
            check!(v.n == n && st.pos == pos, "there is one output per item");
        }
        cover!(n == 3 && r.kind == COMMIT_OK, "three");
        cover!(n == 2 && r.kind == COMMIT_ERR && ev(1).kind == PEEK_ERR, "failed after commit");
        cover!(n == 2 && calls() == 2 && r.kind == PEEK_ERR, "failed without commit");
    }
    /// A failed repetition that is tried again starts over.
    [8, "at most 4 runs of the parser"] fn count_twice() {
        start(4);
        let mut st = any_st(false);
        let b = st.pos;
        let mut p = optional(attempt(count_min_max::<Coll, _, _>(2, 2, Nd(1))));
        let mut s = Default::default();
        let r1 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
        let n = calls();
        if let Some(None) = r1.val {
            check!(st.pos == b, "the failed run is undone");
            let r2 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
            if let Some(Some(v)) = r2.val {
                check!(calls() == n + 2 && v.n == 2 && v.v[0] == ev(n).val && v.v[1] == ev(n + 1).val,
                    "the outputs are those of the second run only");
            }
            cover!(n == 2 && r2.kind == COMMIT_OK, "retry");
        }
    }
    /// Lists within lists: nothing leaks from one element to the next.
    [10, "at most 4 runs of the parsers"] fn nested() {
        start(4);
        let mut st = any_st(false);
        let b = st.pos;
        let mut p = count::<Colls, _, _>(2, (Nd(1), many::<Coll, _, _>(Nd(2))).map(|t| t.1));
        let r = direct(&mut p, &mut st);
        if let Some(v) = r.val {
            // replay the log
            let mut i = 0;
            let mut k = 0;
            let mut pos = b;
            let mut committed = false;
            while k < 2 {
                let e = ev(i);
                i += 1;
                check!(e.id == 1 && e.entry == pos, "an element starts where the previous one stopped");
                if e.kind > COMMIT_OK {
                    break;
                }
                committed |= e.kind == COMMIT_OK;
                pos = e.exit;
                let mut n = 0;
                loop {
                    let e = ev(i);
                    i += 1;
                    check!(e.id == 2 && e.entry == pos, "inner elements follow each other");
                    if e.kind > COMMIT_OK {
                        break;
                    }
                    committed |= e.kind == COMMIT_OK;
                    pos = e.exit;
                    check!(v.v[k].v[n] == e.val, "inner outputs are kept in order");
                    n += 1;
                }
                check!(v.v[k].n as usize == n, "an inner list has the outputs of its own runs only");
                k += 1;
            }
            check!(v.n == k && st.pos == pos, "there is one inner list per element");
            check!(r.kind == if committed { COMMIT_OK } else { PEEK_OK }, "the repetition commits iff a run did");
            cover!(k == 2 && v.v[0].n == 1, "two lists");
        }
    }
}
