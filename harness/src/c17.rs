//! C17 numbers are read from exactly their bytes, in the order named.
use crate::model::{COMMIT_ERR, COMMIT_OK, PEEK_ERR};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::parser::byte::num;
use combine::stream::*;
use combine::*;

/// Reads a number from an input of any length, complete or not.
macro_rules! num {
    ($($be:ident $le:ident $size:expr, $bits:expr;)*) => {
        $(
        fn $be(big: bool) {
            let t = [nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8()];
            let n = nd::below(10) as usize;
            let partial = nd::bool();
            let mut s = MaybePartialStream(&t[..n], partial);
            let r = if big { num::$be().parse_stream(&mut s) } else { num::$le().parse_stream(&mut s) };
            let kind = match &r {
                ParseResult::CommitOk(_) => COMMIT_OK,
                ParseResult::PeekErr(_) => PEEK_ERR,
                ParseResult::CommitErr(_) => COMMIT_ERR,
                _ => 9,
            };
            if n >= $size {
                check!(kind == COMMIT_OK, "a number is read when all its bytes are there");
                check!(s.0.len() == n - $size, "exactly the bytes of the number are consumed");
                let mut v = 0u64;
                let mut i = 0;
                while i < $size {
                    v |= (t[i] as u64) << (8 * if big { $size - 1 - i } else { i });
                    i += 1;
                }
                let f: fn(_) -> u64 = $bits;
                check!(match r { ParseResult::CommitOk(x) => f(x) == v, _ => false }, "the bytes are read in the order named");
            } else {
                check!(s.0.len() == n, "nothing is consumed when bytes are missing");
                check!(kind == if partial { COMMIT_ERR } else { PEEK_ERR }, "missing bytes are an error, or asked for");
                check!(match r { ParseResult::CommitErr(e) => e, ParseResult::PeekErr(e) => e.error, _ => UnexpectedParse::Unexpected } == UnexpectedParse::Eoi, "missing bytes are the end of the input");
            }
            cover!(n == $size, "exactly one number");
        }
        )*
    };
}
num! {
    be_u16 le_u16 2, |x: u16| x as u64;
    be_u32 le_u32 4, |x: u32| x as u64;
    be_u64 le_u64 8, |x: u64| x;
    be_i16 le_i16 2, |x: i16| x as u16 as u64;
    be_i32 le_i32 4, |x: i32| x as u32 as u64;
    be_i64 le_i64 8, |x: i64| x as u64;
    be_f32 le_f32 4, |x: f32| x.to_bits() as u64;
    be_f64 le_f64 8, |x: f64| x.to_bits();
}

harnesses! {
    [10] fn u16_be() { be_u16(true) }
    [10] fn u16_le() { be_u16(false) }
    [10] fn u32_be() { be_u32(true) }
    [10] fn u32_le() { be_u32(false) }
    [10] fn u64_be() { be_u64(true) }
    [10] fn u64_le() { be_u64(false) }
    [10] fn i16_be() { be_i16(true) }
    [10] fn i16_le() { be_i16(false) }
    [10] fn i32_be() { be_i32(true) }
    [10] fn i32_le() { be_i32(false) }
    [10] fn i64_be() { be_i64(true) }
    [10] fn i64_le() { be_i64(false) }
    [10] fn f32_be() { be_f32(true) }
    [10] fn f32_le() { be_f32(false) }
    [10] fn f64_be() { be_f64(true) }
    [10] fn f64_le() { be_f64(false) }
}
