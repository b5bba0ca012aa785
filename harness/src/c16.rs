//! C16 results keep their commit status through every conversion and combination.
use crate::model::{COMMIT_ERR, COMMIT_OK, PEEK_ERR, PEEK_OK};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::ParseResult::*;
use combine::error::*;
use combine::*;

type R = ParseResult<u8, u8>;
/// A result: kind and contents.
fn make(k: u8, v: u8) -> R {
    match k {
        PEEK_OK => PeekOk(v),
        COMMIT_OK => CommitOk(v),
        PEEK_ERR => PeekErr(v.into()),
        _ => CommitErr(v),
    }
}
fn read<T: Copy, E: Copy>(r: &ParseResult<T, E>) -> (u8, Option<T>, Option<E>) {
    match r {
        PeekOk(v) => (PEEK_OK, Some(*v), None),
        CommitOk(v) => (COMMIT_OK, Some(*v), None),
        PeekErr(e) => (PEEK_ERR, None, Some(e.error)),
        CommitErr(e) => (COMMIT_ERR, None, Some(*e)),
    }
}
fn is(r: &R, k: u8, v: u8) -> bool {
    read(r) == if k < PEEK_ERR { (k, Some(v), None) } else { (k, None, Some(v)) }
}
/// Kind and contents of a standard result.
fn std_read(r: &StdParseResult2<u8, u8>) -> (u8, u8) {
    match r {
        Ok((v, Commit::Peek(()))) => (PEEK_OK, *v),
        Ok((v, Commit::Commit(()))) => (COMMIT_OK, *v),
        Err(Commit::Peek(e)) => (PEEK_ERR, e.error),
        Err(Commit::Commit(e)) => (COMMIT_ERR, e.error),
    }
}
/// What follows a committed result is committed.
fn after(committed: bool, k: u8) -> u8 {
    if committed { if k < PEEK_ERR { COMMIT_OK } else { COMMIT_ERR } } else { k }
}
fn commit(c: bool, v: u8) -> Commit<u8> {
    if c { Commit::Commit(v) } else { Commit::Peek(v) }
}

harnesses! {
    [4] fn predicates() {
        let (k, v) = (nd::below(4), nd::u8());
        let r = make(k, v);
        check!(r.is_ok() == (k < PEEK_ERR) && r.is_err() == (k >= PEEK_ERR), "a result is ok or an error");
        check!(match r.as_ref() {
            PeekOk(x) => k == PEEK_OK && *x == v,
            CommitOk(x) => k == COMMIT_OK && *x == v,
            PeekErr(e) => k == PEEK_ERR && *e.error == v,
            CommitErr(e) => k == COMMIT_ERR && *e == v,
        }, "a reference to a result says the same");
    }
    [4] fn maps() {
        let (k, v) = (nd::below(4), nd::u8());
        let mut n = 0;
        let r = make(k, v).map(|x| { n += 1; x ^ 1 });
        check!(is(&r, k, if k < PEEK_ERR { v ^ 1 } else { v }) && n == (k < PEEK_ERR) as u8, "map changes outputs only");
        let mut n = 0;
        let r = make(k, v).map_err(|x| { n += 1; x ^ 1 });
        check!(is(&r, k, if k < PEEK_ERR { v } else { v ^ 1 }) && n == (k >= PEEK_ERR) as u8, "map_err changes errors only");
    }
    [4] fn and_then_() {
        let (k, v, l, w) = (nd::below(4), nd::u8(), nd::below(4), nd::u8());
        let mut seen = None;
        let r = make(k, v).and_then(|x| { seen = Some(x); make(l, w) });
        if k < PEEK_ERR {
            check!(seen == Some(v), "the next step gets the output");
            check!(is(&r, after(k == COMMIT_OK, l), w), "what follows a committed result is committed");
        } else {
            check!(seen.is_none() && is(&r, k, v), "an error is passed on");
        }
    }
    /// Results converted to standard results and back stay what they were.
    [4] fn conversions() {
        let (k, v) = (nd::below(4), nd::u8());
        let s = make(k, v).into_result();
        check!(std_read(&s) == (k, v), "a standard result says the same");
        check!(is(&R::from(s), k, v), "a standard result says the same");
        let s: StdParseResult2<u8, u8> = make(k, v).into();
        check!(std_read(&s) == (k, v), "a standard result says the same");
        let s: Result<Commit<u8>, Commit<Tracked<u8>>> = make(k, v).into();
        check!(match s {
            Ok(c) => k == if c.is_peek() { PEEK_OK } else { COMMIT_OK } && c.into_inner() == v,
            Err(c) => k == if c.is_peek() { PEEK_ERR } else { COMMIT_ERR } && c.into_inner().error == v,
        }, "a standard result says the same");
    }
    [4] fn ctry_() {
        let (k, v) = (nd::below(4), nd::u8());
        let f = || -> R { let (x, c) = ctry!(make(k, v)); if c.is_peek() { PeekOk(x) } else { CommitOk(x) } };
        check!(is(&f(), k, v), "ctry passes on errors as they are");
    }
    [4] fn commits() {
        let (c, v) = (nd::bool(), nd::u8());
        let mut x = commit(c, v);
        check!(x.is_peek() == !c && *x.as_ref() == v && *x.as_mut() == v && x.into_inner() == v, "a commit status keeps its contents");
        *x.as_mut() = v ^ 1;
        check!(x == commit(c, v ^ 1), "a commit status keeps its contents");
        check!(commit(c, v).into_commit() == Commit::Commit(v) && commit(c, v).into_peek() == Commit::Peek(v), "a commit status can be set");
        check!(commit(c, v).map(|x| x ^ 1) == commit(c, v ^ 1), "map keeps the status");
        let (d, w) = (nd::bool(), nd::u8());
        check!(commit(c, v).merge(commit(d, w)) == commit(c || d, w), "either having committed commits");
    }
    [4] fn combine_() {
        let (c, v, l, w) = (nd::bool(), nd::u8(), nd::below(4), nd::u8());
        let mut seen = None;
        let r = commit(c, v).combine(|x| { seen = Some(x); make(l, w).into_result() });
        check!(seen == Some(v) && std_read(&r) == (after(c, l), w), "what follows a committed result is committed");
        let mut seen = None;
        let r = commit(c, v).combine_commit(|x| { seen = Some(x); make(l, w) });
        check!(seen == Some(v) && is(&r, after(c, l), w), "what follows a committed result is committed");
    }
    /// A function used as a parser.
    [4] fn function_parser() {
        let mut st = crate::model::any_st(nd::bool());
        let start = st.pos;
        let (k, v, d) = (nd::below(4), nd::u8(), nd::below(2));
        let mut n = 0;
        let r = combine::parser(|i: &mut crate::model::St| -> StdParseResult<u8, crate::model::St> {
            n += 1;
            i.pos += d;
            match k {
                PEEK_OK => Ok((v, Commit::Peek(()))),
                COMMIT_OK => Ok((v, Commit::Commit(()))),
                PEEK_ERR => Err(Commit::Peek(crate::model::E::new(v).into())),
                _ => Err(Commit::Commit(crate::model::E::new(v).into())),
            }
        }).parse_mode(combine::parser::FirstMode, &mut st, &mut Default::default());
        let o = crate::model::out(r);
        check!(n == 1, "the function is called once");
        check!(k == COMMIT_ERR || st.pos == start + d, "the function is called on the input");
        check!(o.kind == k && o.val == if k < PEEK_ERR { Some(v) } else { None } && o.err.map_or(true, |e| e.pos == v), "its result is that of the parser");
    }
}
