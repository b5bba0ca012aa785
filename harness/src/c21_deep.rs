//! C21 wrappers that differ from others in their types only.
use crate::c21::*;
use crate::model::*;
use crate::{harnesses, nd, wrap, wrap_deep};
use combine::parser::combinator::*;
use combine::*;

harnesses! {
    [5] fn map_input_() { wrap!(p => p().map_input(|x, _: &mut St| x)) }
    [5] fn flat_map_() { wrap!(p => p().flat_map(|x| Ok::<_, E>(x))) }
    [5] fn any_send_state() { wrap!(p => any_send_partial_state(p())) }
    [5] fn any_send_sync_state() { wrap!(p => any_send_sync_partial_state(p())) }
    [5] fn macro_any_state() { wrap!(p, false => mac3(p())) }
    [5] fn more_boxed() { wrap_deep!(p => Box::new(p())) }
    [5] fn more_boxed_dyn() { wrap_deep!(p => p().boxed()) }
    [5] fn more_left_() { wrap_deep!(p => { let mut x = p().left(); if false { x = p().right() } x }) }
    [5] fn more_right_() { wrap_deep!(p => { let mut x = p().right(); if false { x = p().left() } x }) }
    [5] fn more_lazy_() { wrap_deep!(p, false => lazy(p)) }
    [5] fn more_factory_() { wrap_deep!(p => factory(move |_: &mut St| p())) }
    [5] fn more_any_state() { wrap_deep!(p => any_partial_state(p())) }
    [5] fn more_opaque_() { wrap_deep!(p, false => op(p)) }
    [5] fn more_map_() { wrap_deep!(p => p().map(|x| x)) }
    [5] fn more_macro_state() { wrap_deep!(p, false => mac2(p())) }
    [5] fn more_map_input_() { wrap_deep!(p => p().map_input(|x, _: &mut St| x)) }
    [5] fn more_flat_map_() { wrap_deep!(p => p().flat_map(|x| Ok::<_, E>(x))) }
    [5] fn more_any_send_state() { wrap_deep!(p => any_send_partial_state(p())) }
    [5] fn more_any_send_sync_state() { wrap_deep!(p => any_send_sync_partial_state(p())) }
    [5] fn more_macro_any_state() { wrap_deep!(p, false => mac3(p())) }
}
