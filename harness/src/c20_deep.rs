//! C20, the costly ones.
use crate::c20::*;
use crate::harnesses;
use crate::model::*;
use combine::parser::repeat::*;

harnesses! {
    [7, "up to 4 elements"] fn reuse_sep_by() { reuse(sep_by::<Room, _, _, _>(Nd(0), Nd(1)), 2) }
    [7, "up to 4 elements"] fn reuse_sep_end_by() { reuse(sep_end_by1::<Room, _, _, _>(Nd(0), Nd(1)), 2) }
}
