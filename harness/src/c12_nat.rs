//! C12, histories searched natively only: CBMC runs out of memory on VecDeque
//! (the unbounded argument is the Verus unit `buffered`).
use crate::c12::*;
use crate::nd;
use crate::{check, harnesses};
use combine::stream::*;
use combine::*;

harnesses! {
    [6, "two tokens, read again once"] fn again1() { again(1, 2); }
    [6, "three tokens, read again once"] fn again2() { again(2, 3); }
    [8, "histories of 5 steps on up to 5 tokens"] fn lookahead1() { history(1, 6); }
    [8, "histories of 5 steps on up to 5 tokens"] fn lookahead2() { history(2, 6); }
    [8, "histories of 5 steps on up to 5 tokens"] fn lookahead3() { history(3, 6); }
    /// Backtracking alternatives see the same tokens as on a stream in memory.
    [8, "inputs of up to 5 tokens"] fn alternatives() {
        let src = once();
        nd::assume(!src.partial);
        let mut st = buffered::Stream::new(src, 2);
        let (a, b, c) = (nd::u8(), nd::u8(), nd::u8());
        let r = attempt((token(a), token(b))).map(|_| 1).or(attempt((token(a), token(c))).map(|_| 2)).or(any().map(|_| 3)).parse_stream(&mut st).into_result();
        let two = |x: u8, y: u8| src.n >= 2 && src.t[0] == x && src.t[1] == y;
        let want = if two(a, b) { 1 } else if two(a, c) { 2 } else if src.n >= 1 { 3 } else { 0 };
        check!(r.map_or(0, |r| r.0) == want, "backtracking on a buffered stream works as in memory");
        check!(want == 0 || st.uncons().ok() == if (if want == 3 { 1 } else { 2 }) < src.n { Some(src.t[if want == 3 { 1 } else { 2 }]) } else { None }, "the stream stands behind what was parsed");
    }
}
