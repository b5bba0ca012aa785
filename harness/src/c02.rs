//! C02 alternatives: the first alternative that does not fail without committing decides; each one
//! tried starts at the same place; only when all fail without committing does the choice fail.
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::choice::*;
use combine::parser::*;
use combine::*;

/// (kind, value, position on success, calls made, errors of all alternatives tried)
fn spec_choice(ids: &[u8], b: u8) -> (u8, u8, u8, usize, u32) {
    let mut un = 0;
    let mut k = 0;
    while k < ids.len() {
        check!(k < calls(), "alternatives are tried until one decides");
        let e = ev(k);
        check!(e.id == ids[k], "alternatives are tried in the order given");
        check!(e.entry == b, "each alternative starts where the choice started");
        check!(!e.resumed, "each alternative starts from the beginning");
        un |= bit(16 + e.id);
        match e.kind {
            PEEK_OK => return (PEEK_OK, e.val, b, k + 1, un),
            COMMIT_OK => return (COMMIT_OK, e.val, e.exit, k + 1, un),
            PEEK_ERR => (),
            _ => return (COMMIT_ERR, 0, 0, k + 1, un),
        }
        k += 1;
    }
    (PEEK_ERR, 0, 0, k, un)
}

fn check_choice(ids: &[u8], r: Out<u8>, b: u8, st: &St) {
    let (kind, val, pos, n, un) = spec_choice(ids, b);
    check!(r.kind == kind, "the outcome is that of the first alternative that decides");
    check!(calls() == n, "no alternative is tried after one has decided");
    match r.err {
        None => {
            check!(r.val == Some(val), "the output is that of the alternative that matched");
            check!(st.pos == pos, "input is left where the matching alternative stopped");
        }
        Some(e) => {
            if kind == PEEK_ERR {
                check!(e.un & un == un, "a failed choice reports the errors of every alternative");
                check!(e.pos == b, "a failed choice is reported where it started");
            }
        }
    }
    cover!(kind == PEEK_OK, "peek ok");
    cover!(kind == COMMIT_OK, "commit ok");
    cover!(kind == PEEK_ERR, "peek err");
    cover!(kind == COMMIT_ERR, "commit err");
}

harnesses! {
    [8] fn tuple1() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut choice((Nd(1),)), &mut st);
        check_choice(&[1], r, b, &st);
    }
    [8] fn tuple2() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut choice((Nd(1), Nd(2))), &mut st);
        check_choice(&[1, 2], r, b, &st);
    }
    [8] fn tuple4() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut choice((Nd(1), Nd(2), Nd(3), Nd(4))), &mut st);
        check_choice(&[1, 2, 3, 4], r, b, &st);
    }
    [8] fn tuple_by_ref() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut t = (Nd(1), Nd(2));
        let r = direct(&mut choice(&mut t), &mut st);
        check_choice(&[1, 2], r, b, &st);
    }
    [8] fn or_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).or(Nd(2)), &mut st);
        check_choice(&[1, 2], r, b, &st);
    }
    [8] fn or_chain() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut choice!(Nd(1), Nd(2), Nd(3)), &mut st);
        check_choice(&[1, 2, 3], r, b, &st);
    }
    [8] fn array1() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut choice([Nd(1)]), &mut st);
        check_choice(&[1], r, b, &st);
    }
    [8] fn array3() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut choice([Nd(1), Nd(2), Nd(3)]), &mut st);
        check_choice(&[1, 2, 3], r, b, &st);
    }
    [8] fn array2_entries() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut choice([Nd(1), Nd(2)]), &mut st);
        check_choice(&[1, 2], r, b, &st);
    }
    [8, "slices of up to 5 alternatives"] fn slice_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let ids = [1, 2, 3, 4, 5];
        let n = nd::within(1, 5) as usize;
        let mut ps = [Nd(1), Nd(2), Nd(3), Nd(4), Nd(5)];
        let r = first(&mut choice(&mut ps[..n]), &mut st);
        check_choice(&ids[..n], r, b, &st);
    }
    /// The position does not tell whether a parser has moved.
    [8] fn coarse() {
        start_coarse(CAP);
        let mut st = any_st(false);
        let b = st.pos;
        let r = match nd::below(5) {
            0 => first(&mut choice([Nd(1), Nd(2), Nd(3)]), &mut st),
            1 => first(&mut choice(&mut [Nd(1), Nd(2), Nd(3)][..]), &mut st),
            2 => first(&mut choice((Nd(1), Nd(2), Nd(3))), &mut st),
            3 => first(&mut Nd(1).or(Nd(2)).or(Nd(3)), &mut st),
            _ => direct(&mut choice!(Nd(1), Nd(2), Nd(3)), &mut st),
        };
        check_choice(&[1, 2, 3], r, b, &st);
    }
    [8] fn empty_choice() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let none: [Nd; 0] = [];
        let r = direct(&mut choice(none), &mut st);
        check!(r.kind == PEEK_ERR && r.err.unwrap().ms != 0, "a choice without alternatives fails with a message");
        cover!(true, "reached");
    }
    [8] fn optional_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut optional(Nd(1)), &mut st);
        let e = ev(0);
        check!(calls() == 1 && e.entry == b, "optional runs its parser once");
        match e.kind {
            PEEK_ERR => check!(r.kind == PEEK_OK && r.val == Some(None) && st.pos == b,
                "when its parser fails without committing optional succeeds with nothing consumed"),
            PEEK_OK => check!(r.kind == PEEK_OK && r.val == Some(Some(e.val)) && st.pos == b, "optional passes an output on"),
            COMMIT_OK => check!(r.kind == COMMIT_OK && r.val == Some(Some(e.val)) && st.pos == e.exit, "optional passes an output on"),
            _ => check!(r.kind == COMMIT_ERR, "optional passes a committed failure on"),
        }
        cover!(e.kind == PEEK_ERR, "peek err");
        cover!(e.kind == COMMIT_OK, "commit ok");
    }
    [8] fn dispatch_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let sel = nd::below(5);
        let odd = nd::bool();
        let mut p = dispatch!(sel;
            0 | 1 => Nd(1),
            2 if odd => Nd(2),
            2 | 3 => Nd(3),
            _ => Nd(4)
        );
        let want = match sel { 0 | 1 => 1, 2 if odd => 2, 2 | 3 => 3, _ => 4 };
        let r = enter(&mut p, &mut st);
        let e = ev(0);
        check!(calls() == 1 && e.id == want && e.entry == b, "dispatch runs the branch selected and no other");
        check!(r.kind == e.kind.min(COMMIT_ERR), "dispatch has the outcome of its branch");
        if e.kind < PEEK_ERR {
            check!(r.val == Some(e.val) && st.pos == e.exit, "dispatch has the output of its branch");
        }
        cover!(e.id == 2, "guarded branch");
        cover!(e.kind == COMMIT_OK, "commit ok");
    }
    /// A committed failure is not hidden by a later alternative, through nesting.
    [8] fn nested() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = direct(&mut optional((Nd(1), Nd(2)).or((Nd(3), Nd(4)))), &mut st);
        let e0 = ev(0);
        if r.val == Some(None) {
            check!(st.pos == b && r.kind == PEEK_OK, "nothing is consumed when no alternative matched");
            let mut i = 0;
            while i < calls() {
                check!(ev(i).kind == PEEK_OK || ev(i).kind == PEEK_ERR, "giving up quietly means no alternative had committed");
                i += 1;
            }
        }
        if e0.kind == COMMIT_OK && ev(1).kind >= PEEK_ERR {
            check!(r.kind == COMMIT_ERR && calls() == 2, "a failure after a commit is final");
        }
        if e0.kind == PEEK_OK && ev(1).kind == PEEK_ERR {
            check!(calls() > 2 && ev(2).id == 3 && ev(2).entry == b, "the other alternative starts where the choice started");
        }
        cover!(r.val == Some(None), "no match");
        cover!(r.kind == COMMIT_ERR, "commit err");
        cover!(calls() == 4, "second alternative");
    }
}
