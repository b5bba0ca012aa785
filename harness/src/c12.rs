//! C12 a buffered stream gives back the tokens it has read, or says that it cannot.
use crate::model::{Coll, E, SE};
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::stream::buffered;
use combine::stream::*;
use combine::*;

/// A source that can only be read once, and counts how often.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Once {
    pub t: [u8; 5],
    pub n: u8,
    pub at: u8,
    pub partial: bool,
}
impl StreamOnce for Once {
    type Token = u8;
    type Range = u8;
    type Position = u8;
    type Error = E;
    fn uncons(&mut self) -> Result<u8, SE> {
        if self.at < self.n {
            self.at += 1;
            Ok(self.t[self.at as usize - 1])
        } else {
            Err(SE::end_of_input())
        }
    }
    fn is_partial(&self) -> bool {
        self.partial
    }
}
impl Positioned for Once {
    fn position(&self) -> u8 {
        self.at
    }
}
pub fn once() -> Once {
    Once { t: [nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8()], n: nd::below(6), at: 0, partial: nd::bool() }
}

/// Any history of reads and of resets to places where the stream has been.
pub fn history(lookahead: usize, steps: usize) {
    let src = once();
    let mut st = buffered::Stream::new(src, lookahead);
    check!(st.is_partial() == src.partial, "buffering does not change whether the input is partial");
    let mut cps = [st.checkpoint(); 6];
    let mut reached = 0u8; // furthest token read
    let mut at = 0u8; // where the stream stands
    let mut i = 0;
    let mut lost = false;
    while i < steps {
        i += 1;
        if nd::bool() {
            match st.uncons() {
                Ok(t) => {
                    check!(at < src.n && t == src.t[at as usize], "a buffered stream gives the tokens of its source, in order");
                    at += 1;
                    if at > reached {
                        reached = at;
                    }
                    cps[at as usize] = st.checkpoint();
                }
                Err(e) => {
                    check!(e.is_unexpected_end_of_input() == (at == src.n), "the end of the input is reported exactly at the end");
                    check!(at == src.n || reached - at > lookahead as u8, "tokens within the lookahead are still there");
                    if at < src.n {
                        return;
                    }
                }
            }
        } else {
            let to = nd::within(0, reached);
            match st.reset(cps[to as usize].clone()) {
                Ok(()) => at = to,
                Err(_) => {
                    check!(reached - to > lookahead as u8, "a reset within the lookahead succeeds");
                    lost = true;
                }
            }
        }
        if reached - at <= lookahead as u8 {
            check!(st.position() == at, "the position is that of the next token");
        }
    }
    cover!(lost, "backtracked too far");
    cover!(reached > 2 && at < reached, "backtracked");
}

/// Reads, goes back somewhere, reads on: the straight line version of a history.
pub fn again(lookahead: usize, first: u8) {
    let src = once();
    nd::assume(src.n == first);
    let mut st = buffered::Stream::new(src, lookahead);
    let mut cps = [st.checkpoint(); 4];
    let mut i = 0;
    while i < first {
        check!(st.position() == i, "the position is that of the next token");
        check!(st.uncons().ok() == Some(src.t[i as usize]), "a buffered stream gives the tokens of its source, in order");
        i += 1;
        cps[i as usize] = st.checkpoint();
    }
    let to = nd::within(0, first);
    let near = first - to <= lookahead as u8;
    match st.reset(cps[to as usize].clone()) {
        Ok(()) => {
            let r = st.uncons();
            if near {
                check!(r.is_ok() == (to < first), "tokens within the lookahead are still there");
            }
            match r {
                Ok(t) => check!(t == src.t[to as usize], "a token is given again after a reset"),
                Err(e) => check!(e.is_unexpected_end_of_input() == (to == first), "the end of the input is reported exactly at the end"),
            }
            if near && to < first {
                check!(st.position() == to + 1, "the position is that of the next token");
            }
        }
        Err(_) => check!(!near, "a reset within the lookahead succeeds"),
    }
    cover!(near && to < first, "backtracked");
}

harnesses! {
    /// Whether it is partial is up to the source.
    [4] fn partial() {
        let src = once();
        let mut st = buffered::Stream::new(src, 1);
        check!(st.is_partial() == src.partial && st.position() == 0, "buffering does not change whether the input is partial");
    }
}
