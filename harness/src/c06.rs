//! C06 resumption: a parser that is fed its input in chunks returns what it returns when it is fed
//! the whole input at once.
//!
//! Sub parsers are arbitrary deterministic parsers (`Dt`): whatever they do at a position is a
//! function of the position alone, and they suspend when they need input that is not there yet. On
//! resumption they check that they are continued where they were suspended.
use crate::model::*;
use crate::nd;
use crate::{check, cover, fwd_modes, harnesses};
use combine::error::*;
use combine::parser::choice::{choice, optional};
use combine::parser::combinator::*;
use combine::parser::repeat::*;
use combine::parser::*;
use combine::*;

pub const N: u8 = 3;

#[derive(Clone, Copy)]
pub struct Row {
    /// Outcome, where it leaves the input, and how far the parser has to look.
    pub kind: u8,
    pub exit: u8,
    pub need: u8,
}
static mut T: [[Row; N as usize + 1]; 4] = [[Row { kind: 0, exit: 0, need: 0 }; N as usize + 1]; 4];
static mut SUSPENSIONS: u8 = 0;

#[derive(Clone, Copy, Debug)]
pub struct Dt<const ID: usize>;

/// `progress`: never succeeds without consuming, so that it can be repeated.
pub fn table(id: usize, progress: bool) {
    // N + 1 rows, without a loop
    row(id, 0, progress);
    row(id, 1, progress);
    row(id, 2, progress);
    row(id, 3, progress);
}

fn row(id: usize, p: u8, progress: bool) {
    let kind = nd::below(4);
    nd::assume(!(progress && kind == PEEK_OK));
    let exit = if kind == PEEK_OK || kind == PEEK_ERR { p } else { nd::within(p, N) };
    nd::assume(kind != COMMIT_OK || exit > p);
    let need = nd::within(exit, N + 1);
    unsafe { T[id][p as usize] = Row { kind, exit, need } }
}

impl<const ID: usize> Dt<ID> {
    fn run(&mut self, first: bool, input: &mut St, state: &mut (u8, u8, u8)) -> ParseResult<u8, E> {
        let mut entry = input.pos;
        if !first && state.0 == SUSPENDED {
            check!(input.pos == state.2, "a resumed part is continued where it was suspended");
            entry = state.1;
        }
        check!(first || state.0 != RESIDUE, "a part that has failed is not resumed");
        check!(entry <= N, "model: positions are within the input");
        let row = unsafe { T[ID][entry as usize] };
        if input.partial && row.need > input.limit {
            let most = if row.exit < input.limit { row.exit } else { input.limit };
            let at = nd::within(input.pos, most);
            input.pos = at;
            *state = (SUSPENDED, entry, at);
            unsafe { SUSPENSIONS += 1 }
            return ParseResult::CommitErr(nd_err(ID as u8, input.limit, true));
        }
        input.pos = row.exit;
        let val = ID as u8 * 8 + entry + 1;
        *state = (FRESH, 0, 0);
        match row.kind {
            PEEK_OK => ParseResult::PeekOk(val),
            COMMIT_OK => ParseResult::CommitOk(val),
            PEEK_ERR => ParseResult::PeekErr(nd_err(ID as u8, entry, false).into()),
            _ => {
                state.0 = RESIDUE;
                ParseResult::CommitErr(nd_err(ID as u8, row.exit, false))
            }
        }
    }
}
impl<const ID: usize> Parser<St> for Dt<ID> {
    type Output = u8;
    type PartialState = (u8, u8, u8);
    fwd_modes!(St);
    fn parse_mode_impl<M>(&mut self, m: M, input: &mut St, state: &mut (u8, u8, u8)) -> ParseResult<u8, E>
    where
        M: ParseMode,
    {
        self.run(m.is_first(), input, state)
    }
}

/// An arbitrary deterministic parser that is only run at one position, which is then arbitrary.
#[derive(Clone, Copy, Debug)]
pub struct Dl<const ID: usize>;
static mut ONE: [(bool, u8, Row); 4] = [(false, 0, Row { kind: 0, exit: 0, need: 0 }); 4];
static mut END: u8 = 0;

impl<const ID: usize> Parser<St> for Dl<ID> {
    type Output = u8;
    type PartialState = (u8, u8, u8);
    fwd_modes!(St);
    fn parse_mode_impl<M>(&mut self, m: M, input: &mut St, state: &mut (u8, u8, u8)) -> ParseResult<u8, E>
    where
        M: ParseMode,
    {
        let first = m.is_first();
        let mut entry = input.pos;
        if !first && state.0 == SUSPENDED {
            check!(input.pos == state.2, "a resumed part is continued where it was suspended");
            entry = state.1;
        }
        check!(first || state.0 != RESIDUE, "a part that has failed is not resumed");
        let end = unsafe { END };
        let one = unsafe { &mut (*std::ptr::addr_of_mut!(ONE))[ID] };
        if !one.0 {
            let kind = nd::below(4);
            let exit = if kind == PEEK_OK || kind == PEEK_ERR { entry } else { nd::within(entry, end) };
            nd::assume(kind != COMMIT_OK || exit > entry);
            *one = (true, entry, Row { kind, exit, need: nd::within(exit, end + 1) });
        }
        check!(one.1 == entry, "every part starts where it does when parsing at once");
        let row = one.2;
        if input.partial && row.need > input.limit {
            let most = if row.exit < input.limit { row.exit } else { input.limit };
            let at = nd::within(input.pos, most);
            input.pos = at;
            *state = (SUSPENDED, entry, at);
            unsafe { SUSPENSIONS += 1 }
            return ParseResult::CommitErr(nd_err(ID as u8, input.limit, true));
        }
        input.pos = row.exit;
        let val = ID as u8;
        *state = (FRESH, 0, 0);
        match row.kind {
            PEEK_OK => ParseResult::PeekOk(val),
            COMMIT_OK => ParseResult::CommitOk(val),
            PEEK_ERR => ParseResult::PeekErr(nd_err(ID as u8, entry, false).into()),
            _ => {
                state.0 = RESIDUE;
                ParseResult::CommitErr(nd_err(ID as u8, row.exit, false))
            }
        }
    }
}

/// As `relate` for parsers made of `Dl`: inputs of any length.
fn relate_all<P: Parser<St>>(mk: impl Fn() -> P)
where
    P::Output: PartialEq,
{
    unsafe {
        ONE = [(false, 0, Row { kind: 0, exit: 0, need: 0 }); 4];
        END = nd::below(250);
    }
    relate_n(mk, 3, unsafe { END });
}

/// Runs the parser on the whole input and on the same input in chunks and compares the results.
pub fn relate<P: Parser<St>>(mk: impl Fn() -> P, chunks: u8) -> Out<P::Output>
where
    P::Output: PartialEq,
{
    let n = nd::within(0, N);
    relate_n(mk, chunks, n)
}

pub fn relate_n<P: Parser<St>>(mk: impl Fn() -> P, chunks: u8, n: u8) -> Out<P::Output>
where
    P::Output: PartialEq,
{
    unsafe { SUSPENSIONS = 0 }
    let mut one = St { pos: 0, limit: n, partial: false };
    let a = out(mk().parse_stream(&mut one));
    let mut p = mk();
    let mut state = Default::default();
    let mut st = St { pos: 0, limit: 0, partial: true };
    let mut i = 1;
    loop {
        if i >= chunks {
            st.limit = n;
            st.partial = false;
        } else {
            st.limit = nd::within(st.limit, n);
        }
        let b = out(p.parse_stream_partial(&mut st, &mut state));
        if let (true, Some(e)) = (st.partial, b.err) {
            if e.eoi {
                i += 1;
                continue;
            }
        }
        check!(b.kind == a.kind, "parsing in chunks has the outcome of parsing at once, commit status included");
        check!(b.val == a.val, "parsing in chunks produces the output of parsing at once");
        check!(b.kind > COMMIT_OK || st.pos == one.pos, "parsing in chunks stops where parsing at once does");
        cover!(unsafe { SUSPENSIONS } > 0 && b.kind == COMMIT_OK && n >= 2, "resumed to success");
        cover!(unsafe { SUSPENSIONS } > 0 && b.kind == COMMIT_ERR, "resumed to failure");
        return b;
    }
}

pub fn small(c: Coll) -> [u8; 5] {
    [c.n, c.v[0], c.v[1], c.v[2], c.v[3]]
}

/// Adds two numbers in a way that shows grouping and order.
fn mix(l: u32, r: u32) -> u32 {
    l.wrapping_mul(31).wrapping_add(r.wrapping_mul(7)) ^ 5
}

harnesses! {
    [6, "inputs of up to 3 tokens in up to 3 chunks"] fn tuple2() {
        table(1, false);
        table(2, false);
        relate(|| (Dt::<1>, Dt::<2>), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn tuple3() {
        table(1, false);
        table(2, false);
        table(3, false);
        relate(|| (Dt::<1>, Dt::<2>, Dt::<3>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn with_skip() {
        table(1, false);
        table(2, false);
        table(3, false);
        relate(|| Dt::<1>.with(Dt::<2>).skip(Dt::<3>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn then_() {
        table(1, false);
        table(2, false);
        relate(|| Dt::<1>.then(|v| Dt::<2>.map(move |w| (v, w))), 2);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn then_partial_() {
        table(1, false);
        table(2, false);
        relate(|| Dt::<1>.then_partial(|v| { let v = *v; Dt::<2>.map(move |w| (v, w)) }), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn then_ref_() {
        table(1, false);
        table(2, false);
        relate(|| Dt::<1>.then_ref(|_| Dt::<2>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn optional_seq() {
        table(1, false);
        table(2, false);
        table(3, false);
        relate(|| (optional((Dt::<1>, Dt::<2>)), Dt::<3>), 2);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn choice2() {
        table(1, false);
        table(2, false);
        relate(|| choice((Dt::<1>, Dt::<2>)), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn choice_seq() {
        table(1, false);
        table(2, false);
        table(3, false);
        relate(|| choice(((Dt::<1>, Dt::<2>), (Dt::<2>, Dt::<3>))), 2);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn or_() {
        table(1, false);
        table(2, false);
        relate(|| Dt::<1>.or(Dt::<2>), 3);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn choice_array() {
        table(1, false);
        relate(|| choice([Dt::<1>, Dt::<1>]), 3);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn many_() {
        table(1, true);
        let r = relate(|| many::<Coll, _, _>(Dt::<1>).map(small), 3);
        cover!(r.val.map_or(false, |v| v[0] == 3), "three");
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn many1_() {
        table(1, true);
        relate(|| many1::<Coll, _, _>(Dt::<1>).map(small), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn many_pair() {
        table(1, true);
        table(2, false);
        relate(|| many::<Coll, _, _>((Dt::<1>, Dt::<2>).map(|t| t.0 * 8 + t.1)).map(small), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn many_then() {
        table(1, true);
        table(2, false);
        relate(|| (many::<Coll, _, _>(Dt::<1>).map(small), Dt::<2>), 2);
    }
    [6, "inputs of up to 3 tokens in 3 chunks"] fn count_min_max_() {
        table(1, false);
        let min = nd::below(3);
        let max = nd::within(min, 3);
        relate(|| count_min_max::<Coll, _, _>(min as usize, max as usize, Dt::<1>).map(small), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn chainl1_() {
        table(1, true);
        table(2, false);
        relate(|| chainl1(Dt::<1>.map(|v| v as u32), Dt::<2>.map(|o| move |l, r| mix(l, r) + o as u32)), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks, 2 items"] fn iterate_() {
        table(1, false);
        relate(|| iterate::<Coll, _, _, _, _>(0..2u8, |i: &u8, _: &mut St| { let i = *i; Dt::<1>.map(move |v| v * 4 + i) }).map(small), 2);
    }
    [9, "inputs of up to 3 tokens in 2 chunks"] fn repeat_until_() {
        table(1, true);
        table(2, false);
        relate(|| repeat_until::<Coll, _, _, _>(Dt::<1>, Dt::<2>).map(small), 2);
    }
    /// `end` looks at one token only; a longer one is a known finding.
    [6, "inputs of up to 3 tokens in 3 chunks"] fn take_until_() {
        table(1, false);
        let mut p = 0;
        while p <= N {
            nd::assume(unsafe { T[1][p as usize].exit } <= p + 1 && unsafe { T[1][p as usize].need } <= p + 1);
            p += 1;
        }
        relate(|| take_until::<Coll, _, _>(Dt::<1>).map(small), 3);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn look_ahead_() {
        table(1, false);
        table(2, false);
        relate(|| (look_ahead(Dt::<1>), Dt::<2>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn not_followed_by_() {
        table(1, false);
        table(2, false);
        relate(|| (not_followed_by(Dt::<1>.map(combine::error::Token)), Dt::<2>), 2);
    }
    /// Failing after having been suspended with data consumed is a known finding.
    [6, "inputs of up to 3 tokens in 2 chunks"] fn attempt_() {
        table(1, false);
        table(2, false);
        let mut p = 0;
        while p <= N {
            nd::assume(unsafe { T[1][p as usize].kind } != COMMIT_ERR);
            p += 1;
        }
        relate(|| (attempt(Dt::<1>), Dt::<2>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn transformers() {
        table(1, false);
        relate(|| Dt::<1>.map(|v| v + 1).and_then(|v| if v % 2 == 0 { Ok(v) } else { Err(SE { kind: MSG, val: 1 }) }).expected("e").message("m"), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn wrappers() {
        table(1, false);
        table(2, false);
        relate(|| (Box::new(Dt::<1>), ignore(Dt::<2>)), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn any_state() {
        table(1, false);
        table(2, false);
        relate(|| any_partial_state((Dt::<1>, Dt::<2>)), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn no_partial_() {
        table(1, false);
        table(2, false);
        relate(|| (no_partial((Dt::<1>, Dt::<2>)), Dt::<1>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn lazy_() {
        table(1, false);
        table(2, false);
        relate(|| (combine::parser::combinator::lazy(|| Dt::<1>), Dt::<2>), 2);
    }
    [6, "inputs of up to 3 tokens in 2 chunks"] fn factory_() {
        table(1, false);
        table(2, false);
        relate(|| (combine::parser::combinator::factory(|_: &mut St| Dt::<1>), Dt::<2>), 2);
    }
    [5] fn all_tuple2() {
        relate_all(|| (Dl::<1>, Dl::<2>));
    }
    [5] fn all_tuple3() {
        relate_all(|| (Dl::<1>, Dl::<2>, Dl::<3>));
    }
    [5] fn all_with() {
        relate_all(|| Dl::<1>.with(Dl::<2>));
    }
    [5] fn all_skip() {
        relate_all(|| Dl::<1>.skip(Dl::<2>));
    }
    [5] fn all_between() {
        relate_all(|| combine::between(Dl::<1>, Dl::<2>, Dl::<3>));
    }
    [5] fn all_then() {
        relate_all(|| Dl::<1>.then(|v| Dl::<2>.map(move |w| (v, w))));
    }
    [5] fn all_then_partial() {
        relate_all(|| Dl::<1>.then_partial(|v| { let v = *v; Dl::<2>.map(move |w| (v, w)) }));
    }
    [5] fn all_then_ref() {
        relate_all(|| Dl::<1>.then_ref(|_| Dl::<2>));
    }
    [5] fn all_optional() {
        relate_all(|| (optional(Dl::<1>), Dl::<2>));
    }
    [5] fn all_optional_seq() {
        relate_all(|| (optional((Dl::<1>, Dl::<2>)), Dl::<3>));
    }
    [5] fn all_choice2() {
        relate_all(|| choice((Dl::<1>, Dl::<2>)));
    }
    [5] fn all_choice3() {
        relate_all(|| choice((Dl::<1>, Dl::<2>, Dl::<3>)));
    }
    [5] fn all_choice_seq() {
        relate_all(|| choice(((Dl::<1>, Dl::<2>).map(|t| t.0), Dl::<3>)));
    }
    [5] fn all_or() {
        relate_all(|| Dl::<1>.or(Dl::<2>));
    }
    [5] fn all_or_seq() {
        relate_all(|| (Dl::<1>.or(Dl::<2>), Dl::<3>));
    }
    [5] fn all_nested() {
        relate_all(|| (Dl::<1>, (optional(Dl::<2>), Dl::<3>)));
    }
    [5] fn all_look_ahead() {
        relate_all(|| (look_ahead(Dl::<1>), Dl::<2>));
    }
    [5] fn all_not_followed_by() {
        relate_all(|| (not_followed_by(Dl::<1>.map(combine::error::Token)), Dl::<2>));
    }
    [5] fn all_transformers() {
        relate_all(|| Dl::<1>.map(|v| v + 1).flat_map(|v| Ok(v)).expected("e").message("m").silent());
    }
    [5] fn all_boxed() {
        relate_all(|| (Box::new(Dl::<1>), ignore(Dl::<2>)));
    }
    [5] fn all_any_state() {
        relate_all(|| any_partial_state((Dl::<1>, Dl::<2>)));
    }
    [5] fn all_no_partial() {
        relate_all(|| (no_partial((Dl::<1>, Dl::<2>)), Dl::<3>));
    }
    [5] fn all_lazy() {
        relate_all(|| (combine::parser::combinator::lazy(|| Dl::<1>), Dl::<2>));
    }
    [5] fn all_factory() {
        relate_all(|| (combine::parser::combinator::factory(|_: &mut St| Dl::<1>), Dl::<2>));
    }
    [5] fn all_opaque() {
        relate_all(|| (combine::opaque!(Dl::<1>), Dl::<2>));
    }
    [5] fn all_dispatch() {
        relate_all(|| dispatch!(1u8; 1 => Dl::<1>, _ => Dl::<2>));
    }
}
