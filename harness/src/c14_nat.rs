//! C14, lists of several parts, searched natively (beside the bounded proofs in c14).
use crate::c14::*;
use crate::nd;
use crate::{check, harnesses};
use combine::easy::{Error, Info};
use combine::error::ParseError;
use combine::error::*;
use combine::stream::*;

/// Few enough to meet again.
fn few() -> Code {
    (nd::below(3), nd::below(2), nd::below(2))
}
fn list(max: u8) -> Vec<Code> {
    let n = nd::below(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        let c = few();
        nd::assume(!v.contains(&c));
        v.push(c);
    }
    v
}
fn error(p: u8, v: &[Code]) -> Er {
    Er::from_errors(p, v.iter().map(|c| make(*c)).collect())
}
fn parts(e: &Er) -> Vec<Code> {
    e.errors.iter().map(read).collect()
}
fn join(a: &[Code], b: &[Code]) -> Vec<Code> {
    let mut v = a.to_vec();
    for c in b {
        if !v.contains(c) {
            v.push(*c)
        }
    }
    v
}

harnesses! {
    [5, "errors of up to 3 parts"] fn merge_any() {
        let (a, b) = (list(3), list(3));
        let (p, q) = (nd::below(3), nd::below(3));
        let e = if nd::bool() { ParseError::merge(error(p, &a), error(q, &b)) } else { error(p, &a).merge(error(q, &b)) };
        check!(e.position == p.max(q), "the error that got further is kept");
        let want = if p == q { join(&a, &b) } else if p > q { a } else { b };
        check!(parts(&e) == want, "errors at the same place are joined, each once, in order; otherwise the one further on is kept alone");
    }
    [5, "three errors of up to 2 parts"] fn merge_three() {
        let (a, b, c) = (list(2), list(1), list(2));
        let e = ParseError::merge(ParseError::merge(error(1, &a), error(1, &b)), error(1, &c));
        let f = ParseError::merge(error(1, &a), ParseError::merge(error(1, &b), error(1, &c)));
        check!(parts(&e) == join(&join(&a, &b), &c) && parts(&f) == parts(&e), "the order of merging makes no difference");
    }
    [5, "errors of up to 3 parts"] fn add_any() {
        let (a, b) = (list(3), list(3));
        let mut e = error(1, &a);
        let via = nd::below(2);
        for c in &b {
            if via == 0 { ParseError::add(&mut e, make(*c)) } else { e.add_error(make(*c)) }
        }
        check!(e.position == 1 && parts(&e) == join(&a, &b), "an error is added unless it is there already");
    }
    [5, "errors of up to 3 parts"] fn expected_any() {
        let (a, b) = (list(3), list(2));
        let c = (1, nd::below(2), nd::below(2));
        let info = if c.1 == 0 { Info::Token(c.2) } else { Info::Range(c.2) };
        let mut e = error(1, &a);
        e.set_expected(info.clone());
        let mut want: Vec<Code> = a.iter().copied().filter(|c| c.0 != EX).collect();
        check!(parts(&{ let mut e = error(1, &a); ParseError::clear_expected(&mut e); e }) == want, "exactly what was expected is forgotten");
        want.push(c);
        check!(parts(&e) == want, "all that was expected is replaced, the rest is kept");
        let mut t: Tracked<Er> = error(1, &a).into();
        <Er as ParseError<u8, u8, u8>>::set_expected(&mut t, Error::Expected(info), |t| {
            for c in &b { ParseError::add(&mut t.error, make(*c)) }
        });
        // What the closure added as expected gives way
        let mut want = a.clone();
        for c in &b { if c.0 != EX && !want.contains(c) { want.push(*c) } }
        if !want.contains(&c) { want.push(c) }
        check!(parts(&t.error) == want, "what was expected is replaced, the rest is kept");
    }
}
