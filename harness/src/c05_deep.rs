//! C05, the costlier harnesses.
use crate::c05::*;
use crate::model::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::parser::repeat::*;
use combine::parser::*;
use combine::*;

harnesses! {
    /// `chainr1` folds from the right: (a op (b op c)).
    [3, "at most 2 operands and 1 operator"] fn chainr1_() {
        startk([0, 2, 1, 0]);
        let mut st = any_st(nd::bool());
        let b = st.pos;
        let r = first(&mut chainr1(Nk::<1>.map(|v| v as u32), Nk::<2>.map(|v| mix(v))), &mut st);
        let (k, v, pos, n) = chainr(0, b, &mut [0; 3]);
        check!(r.kind == k, "a chain ends or fails exactly as documented");
        check!(seq() == n, "nothing runs after the chain has ended");
        if let Some(x) = r.val {
            check!(st.pos == pos, "input is left after the last operand");
            check!(x == v, "operators are applied from the right, each to its own operands");
        }
        cover!(r.kind == COMMIT_OK && n == 5, "two");
        cover!(r.kind == COMMIT_ERR && n >= 3, "commit err");
        cover!(r.kind == PEEK_ERR, "peek err");
    }}
