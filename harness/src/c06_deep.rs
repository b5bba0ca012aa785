//! C06, the larger bounds.
use crate::c06::*;
use crate::harnesses;
use crate::model::*;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::*;

harnesses! {
    [6, "inputs of up to 3 tokens in 2 chunks"] fn sep_by1_() {
        table(1, true);
        table(2, false);
        relate(|| sep_by1::<Coll, _, _, _>(Dt::<1>, Dt::<2>).map(small), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn sep_by_() {
        table(1, true);
        table(2, false);
        relate(|| sep_by::<Coll, _, _, _>(Dt::<1>, Dt::<2>).map(small), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn sep_end_by1_() {
        table(1, false);
        table(2, true);
        relate(|| sep_end_by1::<Coll, _, _, _>(Dt::<1>, Dt::<2>).map(small), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn sep_end_by_() {
        table(1, false);
        table(2, true);
        relate(|| sep_end_by::<Coll, _, _, _>(Dt::<1>, Dt::<2>).map(small), 2);
    }
}
