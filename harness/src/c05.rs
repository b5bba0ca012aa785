//! C05 separated lists, chains and parsing up to an end marker.
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::*;

pub struct List {
    pub kind: u8,
    pub pos: u8,
    pub out: Coll,
    pub calls: usize,
}

/// What a list of `1` separated by `2` must do. `min`: at least one element is required; `end`: a
/// separator may end the list.
pub fn spec_sep(min: bool, end: bool, b: u8) -> List {
    let mut r = List { kind: PEEK_OK, pos: b, out: Coll::default(), calls: 0 };
    let mut committed = false;
    let mut pos = b; // including a separator after which the list may still turn out to have ended
    let mut sep_committed = false;
    let mut after_sep = false;
    let mut idx = [0; 3];
    loop {
        check!(r.calls < seq(), "the list is parsed to its end");
        let want = if r.out.n == 0 || after_sep { 1 } else { 2 };
        let e = evk(want, idx[want]);
        idx[want] += 1;
        check!(e.seq == r.calls, "elements and separators alternate");
        r.calls += 1;
        check!(e.entry == pos, "each part starts where the previous one stopped");
        match e.kind {
            PEEK_OK | COMMIT_OK => {
                pos = e.exit;
                if want == 1 {
                    r.out.v[r.out.n as usize] = e.val;
                    r.out.n += 1;
                    committed |= e.kind == COMMIT_OK || sep_committed;
                    sep_committed = false;
                    after_sep = false;
                    r.pos = pos;
                } else {
                    after_sep = true;
                    sep_committed = e.kind == COMMIT_OK;
                }
            }
            PEEK_ERR => {
                if r.out.n == 0 {
                    r.kind = if min { PEEK_ERR } else { PEEK_OK };
                } else if !after_sep {
                    r.kind = if committed { COMMIT_OK } else { PEEK_OK };
                } else if end {
                    // a trailing separator belongs to the list
                    committed |= sep_committed;
                    r.pos = pos;
                    r.kind = if committed { COMMIT_OK } else { PEEK_OK };
                } else if sep_committed {
                    r.kind = COMMIT_ERR;
                } else {
                    // a separator that consumed nothing is not part of the list
                    r.kind = if committed { COMMIT_OK } else { PEEK_OK };
                }
                return r;
            }
            _ => {
                r.kind = COMMIT_ERR;
                return r;
            }
        }
    }
}

pub fn check_list(s: &List, r: &Out<Coll>, st: &St) {
    check!(r.kind == s.kind, "the list ends or fails exactly as documented and commits iff a part did");
    check!(seq() == s.calls, "nothing runs after the list has ended");
    if let Some(v) = r.val {
        check!(st.pos == s.pos, "input is left after the last part that belongs to the list");
        check!(v.n == s.out.n, "every element is kept exactly once");
        let mut i = 0;
        while i < 4 {
            check!(i >= v.n as usize || v.v[i] == s.out.v[i], "elements are kept in order");
            i += 1;
        }
    }
    cover!(r.kind == COMMIT_OK && s.out.n == 2, "two elements");
    cover!(r.kind == COMMIT_ERR && s.out.n >= 1, "commit err");
}

type Op = fn(u32, u32) -> u32;
/// Not associative and injective enough to tell groupings and orders apart.
pub fn mix(id: u8) -> impl Fn(u32, u32) -> u32 {
    move |l, r| (l.wrapping_mul(31) ^ r.wrapping_mul(17)).wrapping_add(id as u32 + 1)
}

harnesses! {
    [6, "at most 3 elements and 2 separators"] fn sep_by_first() {
        startk([0, 3, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut sep_by::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(false, false, b), &r, &st);
        cover!(r.val.map_or(false, |v| v.n == 0), "none");
    }
    [5, "at most 2 elements and 2 separators"] fn sep_by_partial() {
        startk([0, 2, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = partial(&mut sep_by::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(false, false, b), &r, &st);
        cover!(r.val.map_or(false, |v| v.n == 0), "none");
    }
    [6, "at most 3 elements and 2 separators"] fn sep_by1_first() {
        startk([0, 3, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut sep_by1::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(true, false, b), &r, &st);
        cover!(r.kind == PEEK_ERR, "none");
    }
    [5, "at most 2 elements and 2 separators"] fn sep_by1_partial() {
        startk([0, 2, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = partial(&mut sep_by1::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(true, false, b), &r, &st);
        cover!(r.kind == PEEK_ERR, "none");
    }
    [6, "at most 3 elements and 2 separators"] fn sep_end_by_first() {
        startk([0, 3, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut sep_end_by::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(false, true, b), &r, &st);
        cover!(r.val.map_or(false, |v| v.n == 0), "none");
    }
    [5, "at most 2 elements and 2 separators"] fn sep_end_by_partial() {
        startk([0, 2, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = partial(&mut sep_end_by::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(false, true, b), &r, &st);
        cover!(r.val.map_or(false, |v| v.n == 0), "none");
    }
    [6, "at most 3 elements and 2 separators"] fn sep_end_by1_first() {
        startk([0, 3, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut sep_end_by1::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(true, true, b), &r, &st);
        cover!(r.kind == PEEK_ERR, "none");
    }
    [5, "at most 2 elements and 2 separators"] fn sep_end_by1_partial() {
        startk([0, 2, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = partial(&mut sep_end_by1::<Coll, _, _, _>(Nk::<1>, Nk::<2>), &mut st);
        check_list(&spec_sep(true, true, b), &r, &st);
        cover!(r.kind == PEEK_ERR, "none");
    }
    /// `chainl1` folds from the left: ((a op b) op c).
    [6, "at most 3 elements and 2 separators"] fn chainl1_() {
        startk([0, 3, 2, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = mode(&mut chainl1(Nk::<1>.map(|v| v as u32), Nk::<2>.map(|v| mix(v))), &mut st);
        let s = spec_sep(true, false, b);
        check!(r.kind == s.kind, "a chain ends or fails exactly as a separated list does");
        check!(seq() == s.calls, "nothing runs after the chain has ended");
        if let Some(v) = r.val {
            check!(st.pos == s.pos, "input is left after the last operand");
            let mut acc = s.out.v[0] as u32;
            let mut i = 1;
            while i < s.out.n {
                acc = mix(evk(2, i as usize - 1).val)(acc, s.out.v[i as usize] as u32);
                i += 1;
            }
            check!(v == acc, "operators are applied from the left, each to its own operands");
        }
        cover!(r.kind == COMMIT_OK && s.out.n == 3, "three");
        cover!(r.kind == COMMIT_ERR && s.out.n >= 1, "commit err");
        cover!(r.kind == PEEK_ERR, "peek err");
    }

    /// `take_until`: tokens up to where `end` would match, which is not consumed.
    [8, "at most 3 tokens"] fn take_until_() {
        start(CAP);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        nd::assume(st.limit - b <= 3);
        let r = enter(&mut take_until::<Coll, _, _>(Nd(1)), &mut st);
        let mut k = 0;
        loop {
            check!(k < calls(), "the end is looked for at every position");
            let e = ev(k);
            check!(e.entry == b + k as u8, "the end is looked for at each position in turn");
            k += 1;
            if e.kind <= COMMIT_OK {
                check!(r.kind <= COMMIT_OK && st.pos == e.entry, "take_until stops in front of the first place where the end matches");
                check!(r.kind == COMMIT_OK || (k == 1 && e.kind == PEEK_OK), "taking tokens commits");
                let v = r.val.unwrap();
                check!(v.n as usize == k - 1, "every token up to the end is taken");
                let mut i = 0;
                while i < v.n {
                    check!(v.v[i as usize] == b + i, "tokens are taken in order");
                    i += 1;
                }
                break;
            }
            if e.kind >= COMMIT_ERR {
                check!(r.kind == COMMIT_ERR, "a committed failure of the end is passed on");
                break;
            }
            if e.entry == st.limit {
                check!(r.kind >= PEEK_ERR, "take_until fails if there is no end");
                // waiting for more input looks like a committed failure
                check!(k == 1 || r.kind == COMMIT_ERR, "failing after taking tokens is committed");
                check!(st.partial || k > 1 || r.kind == PEEK_ERR, "failing without having taken anything is not committed");
                break;
            }
        }
        check!(calls() == k, "nothing runs after the end has been found");
        cover!(r.kind == COMMIT_OK && k == 3, "two tokens");
        cover!(r.kind == PEEK_OK, "at once");
        cover!(r.kind == PEEK_ERR, "peek err");
    }
    [6, "at most 2 tokens"] fn skip_until_() {
        start(CAP);
        let mut st = any_st(false);
        let b = st.pos;
        nd::assume(st.limit - b <= 2);
        let r = direct(&mut skip_until(Nd(1)), &mut st);
        if r.kind <= COMMIT_OK {
            let n = calls() as u8;
            check!(ev(n as usize - 1).kind <= COMMIT_OK && st.pos == b + n - 1, "skip_until stops in front of the first place where the end matches");
        }
        cover!(r.kind == COMMIT_OK && calls() == 2, "one token");
    }
    /// `repeat_until`: `end` is tried before every run of the parser and is not consumed.
    [8, "at most 5 calls of the parsers"] fn repeat_until_() {
        start(5);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = enter(&mut repeat_until::<Coll, _, _, _>(Nd(1), Nd(2)), &mut st);
        repeat_until_spec(b, &r, &st);
    }
    [8, "at most 3 calls of the parsers"] fn repeat_skip_until_() {
        start(3);
        let mut st = any_st(false);
        let b = st.pos;
        let r = direct(&mut repeat_skip_until(Nd(1), Nd(2)), &mut st);
        let r = Out { kind: r.kind, val: None, err: r.err };
        repeat_until_spec(b, &r, &st);
    }
    /// `escaped`: plain parts and escape sequences up to the first token that is neither.
    [8, "at most 3 calls of the parsers"] fn escaped_() {
        start(3);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let esc = nd::below(12);
        let r = enter(&mut escaped(Nd(1), esc, Nd(2)), &mut st);
        let mut pos = b;
        let mut committed = false;
        let mut k = 0;
        let mut plain = true;
        loop {
            check!(k < calls(), "parsing goes on until neither part matches");
            let e = ev(k);
            k += 1;
            check!(e.id == if plain { 1 } else { 2 } && e.entry == pos, "each part starts where the previous one stopped");
            match e.kind {
                PEEK_OK | COMMIT_OK => {
                    committed |= e.kind == COMMIT_OK;
                    pos = e.exit;
                    plain = true;
                }
                PEEK_ERR if plain => {
                    if pos < st.limit && pos == esc {
                        pos += 1;
                        committed = true;
                        plain = false;
                    } else if pos >= st.limit && st.partial {
                        check!(r.kind == COMMIT_ERR && r.err.unwrap().eoi, "more input may go on");
                        break;
                    } else {
                        check!(r.kind <= COMMIT_OK, "escaped ends where neither part matches");
                        check!((r.kind == COMMIT_OK) == committed, "escaped commits exactly if a part or an escape token did");
                        check!(st.pos == pos, "input is left after the last part");
                        break;
                    }
                }
                _ => {
                    check!(r.kind == COMMIT_ERR, "a broken escape sequence is a committed failure");
                    break;
                }
            }
        }
        check!(calls() == k, "nothing runs after the end");
        cover!(r.kind == COMMIT_OK && k == 3 && ev(1).id == 2, "escape");
        cover!(r.kind == COMMIT_ERR && !st.partial && ev(k - 1).kind == PEEK_ERR, "broken escape");
        cover!(r.kind == PEEK_OK, "nothing");
    }
    /// Lists in a list: what one element leaves behind does not show in the next.
    [6, "at most 2 outer and 2 inner elements"] fn nested_lists() {
        startk([0, 2, 1, 2]);
        let mut st = any_st(false);
        let r = first(&mut many::<Colls, _, _>((Nk::<3>, sep_by::<Coll, _, _, _>(Nk::<1>, Nk::<2>)).map(|t| t.1)), &mut st);
        if let Some(v) = r.val {
            let (mut k, mut i) = (0, 0);
            while k < 3 && evk(3, k).kind <= COMMIT_OK {
                // the elements between this outer part and the next
                let (from, to) = (evk(3, k).seq, evk(3, k + 1).seq);
                let mut n = 0;
                while i < callsk(1) && evk(1, i).seq < to {
                    check!(evk(1, i).seq > from, "an inner list follows its outer part");
                    if evk(1, i).kind <= COMMIT_OK {
                        check!(v.v[k].v[n] == evk(1, i).val, "an inner list holds its own elements in order");
                        n += 1;
                    }
                    i += 1;
                }
                check!(v.v[k].n as usize == n, "an inner list holds its own elements only");
                k += 1;
            }
            check!(v.n == k, "there is one inner list per outer element");
            cover!(k == 2 && v.v[0].n == 1 && v.v[1].n == 1, "two lists");
        }
    }
}

fn repeat_until_spec(b: u8, r: &Out<Coll>, st: &St) {
    let mut pos = b;
    let mut committed = false;
    let mut k = 0;
    let mut n = 0;
    let mut at_end = true;
    loop {
        check!(k < calls(), "parsing goes on until the end matches");
        let e = ev(k);
        k += 1;
        check!(e.id == if at_end { 2 } else { 1 }, "the end is tried before every run of the parser");
        check!(e.entry == pos, "each part starts where the previous one stopped");
        if at_end {
            if e.kind <= COMMIT_OK {
                check!(r.kind <= COMMIT_OK && st.pos == pos, "repetition stops in front of the first place where the end matches");
                check!(r.kind == COMMIT_OK || !(committed || e.kind == COMMIT_OK), "consuming commits");
                if let Some(v) = r.val {
                    check!(v.n as usize == n, "every output is kept once");
                }
                break;
            }
            if e.kind >= COMMIT_ERR {
                check!(r.kind == COMMIT_ERR, "a committed failure of the end is passed on");
                break;
            }
            at_end = false;
        } else {
            match e.kind {
                PEEK_OK | COMMIT_OK => {
                    committed |= e.kind == COMMIT_OK;
                    pos = e.exit;
                    if let Some(v) = r.val {
                        check!(v.v[n] == e.val, "outputs are kept in order");
                    }
                    n += 1;
                    at_end = true;
                }
                PEEK_ERR => {
                    check!(r.kind == if committed { COMMIT_ERR } else { PEEK_ERR }, "failing to reach the end is a failure, committed iff a run was");
                    break;
                }
                _ => {
                    check!(r.kind == COMMIT_ERR, "a committed failure is passed on");
                    break;
                }
            }
        }
    }
    check!(calls() == k, "nothing runs after the end has been found");
    cover!(r.kind == COMMIT_OK && n == 1, "one");
    cover!(r.kind == PEEK_OK, "peek ok");
    cover!(r.kind == COMMIT_ERR && ev(k - 1).kind == PEEK_ERR, "commit err");
}

/// What `chainr1` of operand 1 and operator 2 must do from call `i` on at `pos`:
/// (kind, value, position, next call).
pub fn chainr(i: usize, pos: u8, idx: &mut [usize; 3]) -> (u8, u32, u8, usize) {
    check!(i < seq(), "the chain is parsed to its end");
    let e = evk(1, idx[1]);
    idx[1] += 1;
    check!(e.seq == i && e.entry == pos, "an operand starts where the operator stopped");
    if e.kind > COMMIT_OK {
        return (e.kind.min(COMMIT_ERR), 0, pos, i + 1);
    }
    let mut i = i + 1;
    let (mut committed, mut acc, mut pos) = (e.kind == COMMIT_OK, e.val as u32, e.exit);
    let c = |committed| if committed { COMMIT_OK } else { PEEK_OK };
    // after the right operand, itself a chain, another operator may follow only if that chain
    // ended at an operator that is now tried again
    loop {
        check!(i < seq(), "the chain is parsed to its end");
        let o = evk(2, idx[2]);
        idx[2] += 1;
        check!(o.seq == i && o.entry == pos, "an operator follows an operand");
        i += 1;
        if o.kind == PEEK_ERR {
            return (c(committed), acc, pos, i);
        }
        if o.kind > COMMIT_OK {
            return (COMMIT_ERR, 0, pos, i);
        }
        let (k, v, p, n) = chainr(i, o.exit, idx);
        i = n;
        if k == COMMIT_ERR || (k == PEEK_ERR && o.kind == COMMIT_OK) {
            return (COMMIT_ERR, 0, pos, i);
        }
        if k == PEEK_ERR {
            return (c(committed), acc, pos, i);
        }
        committed |= o.kind == COMMIT_OK || k == COMMIT_OK;
        acc = mix(o.val)(acc, v);
        pos = p;
    }
}
