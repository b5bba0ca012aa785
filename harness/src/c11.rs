//! C11 a checkpoint brings every stream back to exactly where it was taken.
use crate::c09::text;
use crate::c10::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::error::*;
use combine::stream::position::{IndexPositioner, SourcePosition};
use combine::stream::*;
use combine::*;

/// Whatever is done after taking a checkpoint, resetting to it undoes all of it, twice over.
fn back<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(mut st: S, m: &M)
where
    S::Position: PartialEq,
{
    let pos = st.position();
    let partial = st.is_partial();
    let before = st.checkpoint();
    let d = any_op(&mut st, m);
    let (later, later_pos) = (st.checkpoint(), st.position());
    check!(st.is_partial() == partial, "consuming input does not change whether it is partial");
    if nd::bool() {
        let _ = st.uncons();
    }
    check!(st.reset(before.clone()).is_ok(), "resetting to a checkpoint succeeds");
    rest(&st, m, &Done { at: 0, ok: true });
    check!(st.position() == pos, "the position is that of the checkpoint");
    check!(st.distance(&before) == 0, "the distance is that of the checkpoint");
    check!(st.is_partial() == partial, "resetting does not change whether the input is partial");
    uncons_op(&mut st, m);
    check!(st.reset(before).is_ok(), "a checkpoint may be used again");
    rest(&st, m, &Done { at: 0, ok: true });
    check!(st.position() == pos, "the position is that of the checkpoint");
    check!(st.reset(later).is_ok(), "resetting forward again succeeds");
    rest(&st, m, &d);
    check!(st.position() == later_pos, "the position is that of the later checkpoint");
    cover!(d.at > 1, "consumed");
}

/// Resetting through a reference resets the stream behind it.
fn through<S: RangeStream, M: Model<T = S::Token, R = S::Range>>(mut st: S, m: &M) {
    {
        let mut r = &mut st;
        let before = r.checkpoint();
        any_op(&mut r, m);
        check!(r.reset(before).is_ok(), "resetting to a checkpoint succeeds");
    }
    rest(&st, m, &Done { at: 0, ok: true });
}

/// A stream that has not been read keeps its tokens for the next reader.
harnesses! {
    [7, "inputs of up to 4 tokens"] fn slice() { let m = bytes(); back(m.0, &m); }
    [7, "inputs of up to 4 tokens"] fn words_() { let m = words(); back(m.0, &m); }
    [7, "inputs of up to 4 tokens"] fn refs() { let m = bytes(); back(SliceStream(m.0), &Refs(m.0)); }
    [2, "texts of up to 3 characters"] fn str_() { let m = text(); back(m.s, &m); }
    [7, "inputs of up to 4 tokens"] fn partial() { let m = bytes(); back(PartialStream(m.0), &m); }
    [7, "inputs of up to 4 tokens"] fn complete() { let m = bytes(); back(CompleteStream(m.0), &m); }
    [7, "inputs of up to 4 tokens"] fn maybe() { let m = bytes(); back(MaybePartialStream(m.0, nd::bool()), &m); }
    [7, "inputs of up to 4 tokens"] fn state_() { let m = bytes(); back(state::Stream { stream: m.0, state: 5u8 }, &m); }
    [7, "inputs of up to 4 tokens"] fn span_() { let m = bytes(); back(span::Stream::<_, UnexpectedParse>::from(m.0), &m); }
    [14, "inputs of up to 4 tokens"] fn easy_() { let m = bytes(); back(easy::Stream(m.0), &m); }
    [7, "inputs of up to 4 tokens"] fn index() {
        let m = bytes();
        back(position::Stream::with_positioner(m.0, IndexPositioner::new_with_position(nd::u8() as usize)), &m);
    }
    [3, "texts of up to 2 characters"] fn source() {
        let m = text();
        nd::assume(m.n <= 2);
        let p = SourcePosition { line: nd::u8() as i32, column: nd::u8() as i32 };
        back(position::Stream::with_positioner(m.s, p), &m);
    }
    [7, "inputs of up to 4 tokens"] fn reference() { let m = bytes(); through(m.0, &m); }
    [14, "inputs of up to 4 tokens"] fn nested() {
        let m = bytes();
        back(easy::Stream(state::Stream { stream: position::Stream::new(MaybePartialStream2(m.0)), state: () }), &m);
    }
}

use self::local::MaybePartialStream2;
mod local {
    //! A partial stream with a default positioner.
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct MaybePartialStream2(pub crate::c09::B);
    impl position::DefaultPositioned for MaybePartialStream2 {
        type Positioner = IndexPositioner;
    }
    impl StreamOnce for MaybePartialStream2 {
        type Token = u8;
        type Range = crate::c09::B;
        type Position = PointerOffset<[u8]>;
        type Error = UnexpectedParse;
        fn uncons(&mut self) -> Result<u8, UnexpectedParse> {
            self.0.uncons()
        }
        fn is_partial(&self) -> bool {
            true
        }
    }
    impl Positioned for MaybePartialStream2 {
        fn position(&self) -> PointerOffset<[u8]> {
            self.0.position()
        }
    }
    impl ResetStream for MaybePartialStream2 {
        type Checkpoint = crate::c09::B;
        fn checkpoint(&self) -> crate::c09::B {
            self.0
        }
        fn reset(&mut self, c: crate::c09::B) -> Result<(), UnexpectedParse> {
            self.0 = c;
            Ok(())
        }
    }
    impl RangeStreamOnce for MaybePartialStream2 {
        fn uncons_range(&mut self, n: usize) -> Result<crate::c09::B, UnexpectedParse> {
            self.0.uncons_range(n)
        }
        fn uncons_while<F: FnMut(u8) -> bool>(&mut self, f: F) -> Result<crate::c09::B, UnexpectedParse> {
            self.0.uncons_while(f)
        }
        fn distance(&self, c: &crate::c09::B) -> usize {
            self.0.distance(c)
        }
        fn range(&self) -> crate::c09::B {
            self.0
        }
    }
}
