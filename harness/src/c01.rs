//! C01 sequencing: parts run left to right, once each, every part from where the previous one
//! stopped; the results are combined as documented; the sequence commits iff a part committed.
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::*;
use combine::*;

/// What running parsers `ids` one after another must do, read off the call log.
/// Returns (kind, position, values, index of the failing parser).
pub fn spec_seq(ids: &[u8], from: usize, start: u8) -> (u8, u8, [u8; 5], usize) {
    let mut pos = start;
    let mut committed = false;
    let mut vals = [0; 5];
    let mut k = 0;
    while k < ids.len() {
        check!(from + k < calls(), "every part up to the first failure is run");
        let e = ev(from + k);
        check!(e.id == ids[k], "parts run in the order given");
        check!(e.entry == pos, "each part starts where the previous one stopped");
        match e.kind {
            PEEK_OK => vals[k] = e.val,
            COMMIT_OK => {
                committed = true;
                pos = e.exit;
                vals[k] = e.val
            }
            PEEK_ERR => return (if committed { COMMIT_ERR } else { PEEK_ERR }, pos, vals, k),
            _ => return (COMMIT_ERR, pos, vals, k),
        }
        k += 1;
    }
    (if committed { COMMIT_OK } else { PEEK_OK }, pos, vals, k)
}

fn check_seq(ids: &[u8], kind: u8, val: Option<[u8; 5]>, start: u8, st: &St) {
    let (k, pos, vals, failed) = spec_seq(ids, 0, start);
    check!(kind == k, "sequence commits iff a part committed and fails iff a part failed");
    check!(calls() == (failed + 1).min(ids.len()), "nothing runs after the first failure");
    if let Some(v) = val {
        check!(v == vals, "the outputs are those of the parts, in order");
        check!(st.pos == pos, "input is left where the last part stopped");
    } else {
        check!(k >= PEEK_ERR, "an output is produced exactly on success");
    }
    cover!(kind == PEEK_OK, "peek ok");
    cover!(kind == COMMIT_OK, "commit ok");
    cover!(kind == PEEK_ERR, "peek err");
    cover!(kind == COMMIT_ERR, "commit err");
}

/// Sequences of two whose output is picked from the parts' outputs.
fn check2(ids: [u8; 2], kind: u8, val: Option<u8>, which: usize, start: u8, st: &St) {
    let (k, pos, vals, failed) = spec_seq(&ids, 0, start);
    check!(kind == k, "sequence commits iff a part committed and fails iff a part failed");
    check!(calls() == (failed + 1).min(2), "nothing runs after the first failure");
    if let Some(v) = val {
        check!(v == vals[which], "the output is that of the documented part");
        check!(st.pos == pos, "input is left where the last part stopped");
    } else {
        check!(k >= PEEK_ERR, "an output is produced exactly on success");
    }
    cover!(kind == PEEK_OK, "peek ok");
    cover!(kind == COMMIT_OK, "commit ok");
    cover!(kind == PEEK_ERR, "peek err");
    cover!(kind == COMMIT_ERR, "commit err");
}

pub struct S2 {
    pub a: u8,
    pub b: u8,
}
pub struct T2(pub u8, pub u8);

harnesses! {
    [8] fn tuple1() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut (Nd(1),), &mut st);
        check_seq(&[1], r.kind, r.val.map(|v| [v.0, 0, 0, 0, 0]), b, &st);
    }
    [8] fn tuple2() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut (Nd(1), Nd(2)), &mut st);
        check_seq(&[1, 2], r.kind, r.val.map(|v| [v.0, v.1, 0, 0, 0]), b, &st);
    }
    [8] fn tuple3() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut (Nd(1), Nd(2), Nd(3)), &mut st);
        check_seq(&[1, 2, 3], r.kind, r.val.map(|v| [v.0, v.1, v.2, 0, 0]), b, &st);
    }
    [8] fn tuple5() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut (Nd(1), Nd(2), Nd(3), Nd(4), Nd(5)), &mut st);
        check_seq(&[1, 2, 3, 4, 5], r.kind, r.val.map(|v| [v.0, v.1, v.2, v.3, v.4]), b, &st);
    }
    [8] fn and_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut Nd(1).and(Nd(2)), &mut st);
        check_seq(&[1, 2], r.kind, r.val.map(|v| [v.0, v.1, 0, 0, 0]), b, &st);
    }
    [8] fn with_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).with(Nd(2)), &mut st);
        check2([1, 2], r.kind, r.val, 1, b, &st);
    }
    [8] fn skip_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).skip(Nd(2)), &mut st);
        check2([1, 2], r.kind, r.val, 0, b, &st);
    }
    [8] fn between_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut combine::between(Nd(1), Nd(3), Nd(2)), &mut st);
        let (k, pos, vals, failed) = spec_seq(&[1, 2, 3], 0, b);
        check!(r.kind == k, "sequence commits iff a part committed and fails iff a part failed");
        check!(calls() == (failed + 1).min(3), "nothing runs after the first failure");
        if let Some(v) = r.val {
            check!(v == vals[1], "between returns the output of the middle parser");
            check!(st.pos == pos, "input is left where the last part stopped");
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(r.kind == COMMIT_ERR, "commit err");
    }
    [8] fn struct_fields() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut p = struct_parser!(S2 { b: Nd(1), _: Nd(2), a: Nd(3) });
        let r = first(&mut p, &mut st);
        let (k, pos, vals, _) = spec_seq(&[1, 2, 3], 0, b);
        check!(r.kind == k, "sequence commits iff a part committed and fails iff a part failed");
        if let Some(v) = r.val {
            check!(v.b == vals[0] && v.a == vals[2], "each field gets its parser's output");
            check!(st.pos == pos, "input is left where the last part stopped");
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(r.kind == COMMIT_ERR, "commit err");
    }
    [8] fn then_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).then(|v| Nd(40 + v)), &mut st);
        let v1 = ev(0).val;
        check2([1, 40 + v1], r.kind, r.val, 1, b, &st);
    }
    [8] fn then_partial_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).then_partial(|v| Nd(40 + *v)), &mut st);
        let v1 = ev(0).val;
        check2([1, 40 + v1], r.kind, r.val, 1, b, &st);
    }
    [8] fn then_ref_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut Nd(1).then_ref(|v| Nd(40 + *v)), &mut st);
        let v1 = ev(0).val;
        check_seq(&[1, 40 + v1], r.kind, r.val.map(|v| [v.0, v.1, 0, 0, 0]), b, &st);
    }
    [8] fn map_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut n = 0;
        let r = enter(&mut Nd(1).map(|v| { n += 1; v ^ 0x55 }), &mut st);
        let (k, pos, vals, _) = spec_seq(&[1], 0, b);
        check!(r.kind == k && calls() == 1, "map keeps the outcome of its parser");
        check!(n == (k < PEEK_ERR) as u8, "the function runs exactly once on success");
        if let Some(v) = r.val {
            check!(v == vals[0] ^ 0x55 && st.pos == pos, "map applies the function to the output");
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(r.kind == COMMIT_ERR, "commit err");
    }
    [8] fn map_input_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let mut at = 255;
        let r = enter(&mut Nd(1).map_input(|v, i: &mut St| { at = i.pos; v ^ 0x55 }), &mut st);
        let (k, pos, vals, _) = spec_seq(&[1], 0, b);
        check!(r.kind == k && calls() == 1, "map_input keeps the outcome of its parser");
        if let Some(v) = r.val {
            check!(v == vals[0] ^ 0x55 && st.pos == pos, "map_input applies the function to the output");
            check!(at == pos, "the function sees the input after the parser");
        } else {
            check!(at == 255, "the function does not run on failure");
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(r.kind == COMMIT_ERR, "commit err");
    }
    [8] fn flat_map_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let bad = nd::bool();
        let mut n = 0;
        let mut got = 255;
        let fe = E { pos: 77, eoi: false, un: 0, ex: 0, ms: 1 };
        let r = direct(&mut Nd(1).flat_map(|v| { n += 1; got = v; if bad { Err(fe) } else { Ok(v ^ 0x55) } }), &mut st);
        let (k, pos, vals, _) = spec_seq(&[1], 0, b);
        check!(n == (k < PEEK_ERR) as u8, "the function runs exactly once on success");
        if k >= PEEK_ERR {
            check!(r.kind == k, "a failure is passed on");
        } else {
            check!(got == vals[0], "the function gets the output");
            if bad {
                check!(r.kind == if k == PEEK_OK { PEEK_ERR } else { COMMIT_ERR }, "a rejected output fails, committed iff input was committed");
                check!(r.err == Some(fe), "the function's error is reported");
            } else {
                check!(r.kind == k && r.val == Some(vals[0] ^ 0x55) && st.pos == pos, "an accepted output is returned");
            }
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(bad && k == COMMIT_OK, "rejected after commit");
    }
    [8] fn and_then_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let bad = nd::bool();
        let mut n = 0;
        let mut got = 255;
        let r = direct(&mut Nd(1).and_then(|v| { n += 1; got = v; if bad { Err(SE { kind: MSG, val: 9 }) } else { Ok(v ^ 0x55) } }), &mut st);
        let (k, pos, vals, _) = spec_seq(&[1], 0, b);
        check!(n == (k < PEEK_ERR) as u8, "the function runs exactly once on success");
        if k >= PEEK_ERR {
            check!(r.kind == k, "a failure is passed on");
        } else {
            check!(got == vals[0], "the function gets the output");
            if bad {
                check!(r.val.is_none(), "a rejected output is a failure");
                if k == COMMIT_OK || !st.partial {
                    check!(r.kind == if k == PEEK_OK { PEEK_ERR } else { COMMIT_ERR }, "a rejected output fails, committed iff input was committed");
                }
                check!(r.err == Some(E { pos: b, eoi: false, un: 0, ex: 0, ms: bit(9) }), "the function's error is reported where the value started");
            } else {
                check!(r.kind == k && r.val == Some(vals[0] ^ 0x55) && st.pos == pos, "an accepted output is returned");
            }
        }
        cover!(r.kind == PEEK_OK, "peek ok");
        cover!(bad && k == COMMIT_OK, "rejected after commit");
    }
    /// The entry point users call: the output and the remaining input, or an error.
    [8] fn parse_top() {
        start(CAP);
        let st = any_st(nd::bool());
        let b = st.pos;
        let r = (Nd(1), Nd(2)).parse(st);
        let (k, pos, vals, _) = spec_seq(&[1, 2], 0, b);
        match r {
            Ok(((x, y), rest)) => {
                check!(k < PEEK_ERR, "parse succeeds iff the parser succeeds");
                check!(x == vals[0] && y == vals[1], "parse returns the parser's output");
                check!(rest.pos == pos && rest.limit == st.limit && rest.partial == st.partial, "parse returns the input not consumed");
            }
            Err(_) => check!(k >= PEEK_ERR, "parse fails iff the parser fails"),
        }
        cover!(k == PEEK_OK, "peek ok");
        cover!(k == COMMIT_ERR, "commit err");
    }
}
