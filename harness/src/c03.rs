//! C03 backtracking: attempt, look_ahead and not_followed_by consume nothing where they say so.
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::*;
use combine::*;

harnesses! {
    [8] fn attempt_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut attempt(Nd(1)), &mut st);
        let e = ev(0);
        check!(calls() == 1 && e.entry == b, "attempt runs its parser once");
        match e.kind {
            PEEK_OK => check!(r.kind == PEEK_OK && r.val == Some(e.val) && st.pos == b, "attempt passes an output on"),
            COMMIT_OK => check!(r.kind == COMMIT_OK && r.val == Some(e.val) && st.pos == e.exit, "attempt passes an output on"),
            SUSPEND => check!(r.kind == COMMIT_ERR && r.err.unwrap().eoi, "attempt waits for more input when its parser does"),
            _ => {
                check!(r.kind == PEEK_ERR, "attempt makes every failure one that has not committed");
                check!(r.err.unwrap().un & bit(17) != 0 || r.err.unwrap().pos != e.exit, "attempt keeps the error");
            }
        }
        cover!(e.kind == COMMIT_ERR, "commit err");
        cover!(e.kind == SUSPEND, "suspend");
        cover!(e.kind == COMMIT_OK, "commit ok");
    }
    /// End of input is final when the stream is complete, even though the error says so.
    [8] fn attempt_eoi_complete() {
        start(CAP);
        let mut st = any_st(false);
        let b = st.pos;
        let r = direct(&mut optional(attempt((Nd(1), any()))), &mut st);
        let e = ev(0);
        if e.kind == COMMIT_OK && e.exit == st.limit {
            check!(r.val == Some(None) && r.kind == PEEK_OK && st.pos == b, "running out of input is undone like any other failure");
        }
        if r.val == Some(None) {
            check!(st.pos == b, "nothing is consumed by a failed attempt");
        }
        check!(r.kind != COMMIT_ERR, "a failed attempt on complete input can be recovered from");
        cover!(e.kind == COMMIT_OK && r.val == Some(None), "ran out");
        cover!(e.kind == COMMIT_ERR, "commit err");
    }
    [8] fn attempt_or() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut attempt((Nd(1), Nd(2))).or((Nd(3), Nd(4))), &mut st);
        let failed = ev(0).kind == PEEK_ERR || ev(0).kind == COMMIT_ERR
            || (ev(0).kind <= COMMIT_OK && (ev(1).kind == PEEK_ERR || ev(1).kind == COMMIT_ERR));
        let n = if ev(0).kind <= COMMIT_OK { 2 } else { 1 };
        if failed {
            check!(calls() > n && ev(n).id == 3 && ev(n).entry == b, "after a failed attempt the alternative starts where the attempt started");
            if ev(n).kind == COMMIT_OK && ev(n + 1).kind == COMMIT_OK {
                check!(r.kind == COMMIT_OK && r.val == Some((ev(n).val, ev(n + 1).val)) && st.pos == ev(n + 1).exit, "the alternative decides");
            }
        } else {
            check!(calls() == n, "the alternative only runs after a failed attempt");
        }
        cover!(failed && ev(0).kind == COMMIT_OK && r.kind == COMMIT_OK, "recovered");
        cover!(!failed, "matched");
    }
    [8] fn look_ahead_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut look_ahead(Nd(1)), &mut st);
        let e = ev(0);
        check!(calls() == 1 && e.entry == b, "look_ahead runs its parser once");
        if e.kind <= COMMIT_OK {
            check!(r.kind == PEEK_OK && r.val == Some(e.val), "look_ahead returns the output without committing");
            check!(st.pos == b, "look_ahead leaves the input where it was");
        } else {
            check!(r.kind == e.kind.min(COMMIT_ERR), "look_ahead passes a failure on");
            check!(st.partial || r.err.unwrap().un & bit(17) != 0, "look_ahead passes the error on");
        }
        cover!(e.kind == COMMIT_OK, "commit ok");
        cover!(e.kind == COMMIT_ERR, "commit err");
    }
    [8] fn look_ahead_then() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut (look_ahead(Nd(1)), Nd(2)), &mut st);
        if ev(0).kind <= COMMIT_OK {
            check!(calls() == 2 && ev(1).entry == b, "what was looked at is parsed again");
            check!(r.kind == ev(1).kind.min(COMMIT_ERR), "looking ahead does not commit");
        }
        cover!(r.kind == COMMIT_OK, "commit ok");
        cover!(r.kind == PEEK_ERR && calls() == 2, "peek err");
    }
    [8] fn not_followed_by_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut not_followed_by(Nd(1).map(combine::error::Token)), &mut st);
        let e = ev(0);
        check!(calls() == 1 && e.entry == b, "not_followed_by runs its parser once");
        match e.kind {
            PEEK_OK | COMMIT_OK => check!(r.kind == PEEK_ERR, "not_followed_by fails without committing when its parser matches"),
            PEEK_ERR | COMMIT_ERR => check!(r.kind == PEEK_OK && st.pos == b, "not_followed_by succeeds without consuming when its parser fails"),
            _ => check!(r.kind == COMMIT_ERR && r.err.unwrap().eoi && st.pos == b, "not_followed_by waits for more input, keeping what there is"),
        }
        cover!(e.kind == COMMIT_OK, "commit ok");
        cover!(e.kind == COMMIT_ERR, "commit err");
        cover!(e.kind == SUSPEND, "suspend");
    }
    [8] fn not_followed_by_then() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut optional((not_followed_by(Nd(1).map(combine::error::Token)), Nd(2))), &mut st);
        if ev(0).kind == PEEK_ERR || ev(0).kind == COMMIT_ERR {
            check!(calls() == 2 && ev(1).entry == b, "parsing goes on where it was");
            check!(ev(1).kind != COMMIT_OK || st.pos == ev(1).exit, "input is left where the last part stopped");
        }
        if ev(0).kind <= COMMIT_OK {
            check!(r.val == Some(None) && st.pos == b, "a match is a failure that consumed nothing");
        }
        cover!(r.kind == COMMIT_OK, "commit ok");
        cover!(r.val == Some(None), "none");
    }
    /// After a failed attempt the state is as good as new: trying again runs the parser afresh.
    [8] fn attempt_state() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut p = attempt(Nd(1));
        let mut s = Default::default();
        let r1 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
        if r1.kind != COMMIT_ERR {
            st.pos = b;
            let r2 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
            check!(!log().dead_resume && !ev(1).resumed, "no state of a finished run is picked up again");
            cover!(r1.kind == PEEK_ERR && ev(0).kind == COMMIT_ERR, "failed before");
            cover!(r2.kind == COMMIT_OK, "ok");
        }
    }
    [8] fn not_followed_by_state() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut p = not_followed_by(Nd(1).map(combine::error::Token));
        let mut s = Default::default();
        let r1 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
        st.pos = b;
        let r2 = out(p.parse_mode(PartialMode::default(), &mut st, &mut s));
        check!(!log().dead_resume && !ev(1).resumed, "no state of a finished run is picked up again");
        check!(ev(1).entry == b, "the parser starts over");
        cover!(r1.kind == PEEK_OK && ev(0).kind == COMMIT_ERR, "failed before");
        cover!(ev(0).kind == SUSPEND, "suspended before");
        let _ = r2;
    }
    /// attempt and friends composed: whatever happens inside, giving up means nothing was consumed.
    [8] fn composed() {
        start(CAP);
        let mut st = any_st(false);
        let b = st.pos;
        let r = direct(&mut optional(attempt((look_ahead(Nd(1)), optional(attempt((Nd(2), Nd(3)))), Nd(4)))), &mut st);
        check!(r.kind != COMMIT_ERR, "an attempt never fails for good on complete input");
        if r.val == Some(None) {
            check!(r.kind == PEEK_OK && st.pos == b, "giving up leaves the input where it was");
        }
        cover!(r.val == Some(None) && ev(1).kind == COMMIT_OK, "gave up after progress");
        cover!(r.kind == COMMIT_OK, "ok");
    }
}
