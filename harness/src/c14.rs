//! C14 merging errors keeps the furthest, and at the same place everything, once.
use crate::model::SE;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::easy::{Error, Errors, Info};
use combine::error::*;
use combine::stream::*;
use combine::*;

pub type Er = Errors<u8, u8, u8>;
pub type Se = Error<u8, u8>;

pub const UN: u8 = 0;
pub const EX: u8 = 1;
pub const MS: u8 = 2;
/// An error as (kind, kind of info, value)
pub type Code = (u8, u8, u8);
const WORDS: [&str; 3] = ["end of input", "x", "y"];

pub fn code() -> Code {
    let k = nd::below(3);
    let i = nd::below(3);
    (k, i, nd::below(if i == 2 { 3 } else { 4 }))
}
pub fn make(c: Code) -> Se {
    let i = match c.1 {
        0 => Info::Token(c.2),
        1 => Info::Range(c.2),
        _ => Info::Static(if c.2 == 0 { WORDS[0] } else if c.2 == 1 { WORDS[1] } else { WORDS[2] }),
    };
    match c.0 {
        UN => Error::Unexpected(i),
        EX => Error::Expected(i),
        _ => Error::Message(i),
    }
}
/// 9.. for what is none of the above
pub fn read(e: &Se) -> Code {
    let (k, i) = match e {
        Error::Unexpected(i) => (UN, i),
        Error::Expected(i) => (EX, i),
        Error::Message(i) => (MS, i),
        Error::Other(_) => return (9, 9, 9),
    };
    match i {
        Info::Token(t) => (k, 0, *t),
        Info::Range(t) => (k, 1, *t),
        Info::Static(s) => (k, 2, word(s)),
        Info::Owned(_) => (k, 9, 9),
    }
}
/// Up to `N` codes.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cs {
    n: usize,
    c: [Code; 4],
}
const NO: Cs = Cs { n: 0, c: [(0, 0, 0); 4] };
impl Cs {
    fn push(&mut self, c: Code) {
        self.c[self.n] = c;
        self.n += 1;
    }
    fn has(&self, c: Code) -> bool {
        (self.n > 0 && self.c[0] == c) || (self.n > 1 && self.c[1] == c) || (self.n > 2 && self.c[2] == c) || (self.n > 3 && self.c[3] == c)
    }
    fn add(&mut self, c: Code) {
        if !self.has(c) {
            self.push(c)
        }
    }
    fn without_expected(&self) -> Cs {
        let mut r = NO;
        if self.n > 0 && self.c[0].0 != EX {
            r.push(self.c[0])
        }
        if self.n > 1 && self.c[1].0 != EX {
            r.push(self.c[1])
        }
        if self.n > 2 && self.c[2].0 != EX {
            r.push(self.c[2])
        }
        r
    }
}
/// Equality is settled by its own harness; here tokens stand for all.
fn small() -> Code {
    (nd::below(3), 0, nd::u8())
}
/// An error with exactly `n` different parts.
fn some_errors(n: usize) -> (Er, Cs) {
    let p = nd::below(3);
    let mut cs = NO;
    let mut v = Vec::with_capacity(4);
    if n > 0 {
        let c = small();
        cs.push(c);
        v.push(make(c));
    }
    if n > 1 {
        let c = small();
        nd::assume(!cs.has(c));
        cs.push(c);
        v.push(make(c));
    }
    (Er::from_errors(p, v), cs)
}
fn is(e: &Er, cs: &Cs) -> bool {
    e.errors.len() == cs.n
        && (cs.n < 1 || read(&e.errors[0]) == cs.c[0])
        && (cs.n < 2 || read(&e.errors[1]) == cs.c[1])
        && (cs.n < 3 || read(&e.errors[2]) == cs.c[2])
        && (cs.n < 4 || read(&e.errors[3]) == cs.c[3])
}

/// A stream error that is its code, and a parse error that lists them.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ce(Code);
impl StreamError<u8, u8> for Ce {
    fn unexpected_token(t: u8) -> Self { Ce((UN, 0, t)) }
    fn unexpected_range(t: u8) -> Self { Ce((UN, 1, t)) }
    fn unexpected_format<F: std::fmt::Display>(_: F) -> Self { Ce((UN, 9, 9)) }
    fn unexpected_static_message(m: &'static str) -> Self { Ce((UN, 2, word(m))) }
    fn expected_token(t: u8) -> Self { Ce((EX, 0, t)) }
    fn expected_range(t: u8) -> Self { Ce((EX, 1, t)) }
    fn expected_format<F: std::fmt::Display>(_: F) -> Self { Ce((EX, 9, 9)) }
    fn expected_static_message(m: &'static str) -> Self { Ce((EX, 2, word(m))) }
    fn message_token(t: u8) -> Self { Ce((MS, 0, t)) }
    fn message_range(t: u8) -> Self { Ce((MS, 1, t)) }
    fn message_format<F: std::fmt::Display>(_: F) -> Self { Ce((MS, 9, 9)) }
    fn message_static_message(m: &'static str) -> Self { Ce((MS, 2, word(m))) }
    fn is_unexpected_end_of_input(&self) -> bool { self.0 == (UN, 2, 0) }
    fn into_other<T: StreamError<u8, u8>>(self) -> T { T::unexpected_token(0) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ces(u8, Cs);
impl combine::error::ParseError<u8, u8, u8> for Ces {
    type StreamError = Ce;
    fn empty(p: u8) -> Self { Ces(p, NO) }
    fn set_position(&mut self, p: u8) { self.0 = p }
    fn add(&mut self, e: Ce) { self.1.push(e.0) }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(_: &mut Tracked<Self>, _: Ce, _: F) {}
    fn is_unexpected_end_of_input(&self) -> bool { false }
    fn into_other<T: combine::error::ParseError<u8, u8, u8>>(self) -> T { T::empty(self.0) }
}
fn word(s: &'static str) -> u8 {
    if s.len() == 12 { 0 } else { s.as_bytes()[0] - b'w' }
}
fn merge_same(n: usize, m: usize) {
    let (mut a, ca) = some_errors(n);
    let (mut b, cb) = some_errors(m);
    a.position = 1;
    b.position = 1;
    let e = combine::error::ParseError::merge(a, b);
    check!(e.position == 1, "the position stays");
    let mut want = ca;
    if cb.n > 0 { want.add(cb.c[0]) }
    if cb.n > 1 { want.add(cb.c[1]) }
    check!(is(&e, &want), "errors at the same place are joined, each once, in order");
    cover!(want.n == n + m, "joined");
    std::mem::forget(e);
}
fn merge_other(ahead: bool) {
    let (mut a, ca) = some_errors(1);
    let (mut b, cb) = some_errors(1);
    let d = nd::within(1, 200);
    a.position = if ahead { d } else { 0 };
    b.position = if ahead { 0 } else { d };
    let e = combine::error::ParseError::merge(a, b);
    check!(e.position == d && is(&e, if ahead { &ca } else { &cb }), "the error that got further is kept, alone");
    std::mem::forget(e);
}
fn add__(n: usize) {
    let (mut a, mut ca) = some_errors(n);
    let p = a.position;
    let c = small();
    combine::error::ParseError::add(&mut a, make(c));
    ca.add(c);
    check!(a.position == p && is(&a, &ca), "an error is added unless it is there already");
    std::mem::forget(a);
}
fn set_expected__(n: usize) {
    let (a, ca) = some_errors(n);
    let mut t: Tracked<Er> = a.into();
    let (c, i) = (small(), nd::below(4));
    <Er as combine::error::ParseError<u8, u8, u8>>::set_expected(&mut t, make((EX, 0, i)), |t| {
        combine::error::ParseError::add(&mut t.error, make(c));
    });
    let mut want = ca;
    if c.0 != EX { want.add(c) }
    want.add((EX, 0, i));
    check!(is(&t.error, &want), "what was expected is replaced, the rest is kept");
    std::mem::forget(t);
}
fn set_expected_all_(n: usize) {
    let (mut a, ca) = some_errors(n);
    let i = nd::below(4);
    a.set_expected(Info::Token(i));
    let mut want = ca.without_expected();
    want.push((EX, 0, i));
    check!(is(&a, &want), "all that was expected is replaced, the rest is kept");
    std::mem::forget(a);
}
fn clear_expected__(n: usize) {
    let (mut a, ca) = some_errors(n);
    combine::error::ParseError::clear_expected(&mut a);
    check!(is(&a, &ca.without_expected()), "exactly what was expected is forgotten");
    std::mem::forget(a);
}
fn end_of_input__(n: usize) {
    let (a, ca) = some_errors(n);
    let p = a.position;
    let c = code();
    let mut a = a;
    a.errors.push(make(c));
    check!(combine::error::ParseError::is_unexpected_end_of_input(&a) == (c == (UN, 2, 0)), "the end of the input is told from other errors");
    check!(combine::error::ParseError::position(&a) == p, "an error tells its position");
    std::mem::forget(a);
}
fn into_other_errors_(n: usize) {
    let (a, ca) = some_errors(n);
    let p = a.position;
    let r: Ces = ParseErrorInto::<u8, u8, u8>::into_other_error::<Ces, u8, u8, u8>(a);
    check!(r == Ces(p, ca), "a converted error says the same");
}
fn into_other_single_(n: usize) {
    let (a, ca) = some_errors(n);
    let p = a.position;
    let r: Ces = combine::error::ParseError::into_other(a);
    check!(r.0 == p && (ca.n == 0) == (r.1.n == 0), "a converted error keeps its position");
    check!(ca.n == 0 || ca.has(r.1.c[0]), "a converted error says nothing new");
}
fn map_parts_(n: usize) {
    let (a, ca) = some_errors(n);
    let p = a.position;
    let r = a.map_token(|t| t ^ 50).map_range(|r| r ^ 100).map_position(|p| p + 1);
    let mut want = ca;
    want.c[0].2 ^= if n > 0 { 50 } else { 0 };
    want.c[1].2 ^= if n > 1 { 50 } else { 0 };
    check!(r.position == p + 1 && is(&r, &want), "mapping changes only what it names");
    std::mem::forget(r);
}

harnesses! {
    /// Each constructor says what its name says.
    [14] fn constructors() {
        let x = nd::u8();
        macro_rules! same { ($($e:expr => $c:expr),* $(,)?) => { $({ let e: Se = $e; check!(read(&e) == $c, "an error says what it was made from"); std::mem::forget(e); })* } }
        same! {
            StreamError::unexpected_token(x) => (UN, 0, x), StreamError::unexpected_range(x) => (UN, 1, x), StreamError::unexpected_static_message("x") => (UN, 2, 1),
            StreamError::expected_token(x) => (EX, 0, x), StreamError::expected_range(x) => (EX, 1, x), StreamError::expected_static_message("y") => (EX, 2, 2),
            StreamError::message_token(x) => (MS, 0, x), StreamError::message_range(x) => (MS, 1, x), StreamError::message_static_message("y") => (MS, 2, 2),
            StreamError::unexpected(combine::error::Token(x)) => (UN, 0, x), StreamError::expected(combine::error::Range(x)) => (EX, 1, x),
            StreamError::message("x") => (MS, 2, 1), StreamError::unexpected("x") => (UN, 2, 1), StreamError::message(combine::error::Token(x)) => (MS, 0, x),
            StreamError::end_of_input() => (UN, 2, 0),
        }
    }
    /// Equality tells apart exactly what differs in kind or contents.
    [14] fn equality() {
        let (a, b) = (code(), code());
        let (x, y) = (make(a), make(b));
        check!((x == y) == (a == b), "errors are equal exactly if they say the same");
        check!(StreamError::is_unexpected_end_of_input(&x) == (a == (UN, 2, 0)), "only the end of the input is the end of the input");
        std::mem::forget((x, y));
    }
    [5, "errors of 1 part"] fn merge_11() { merge_same(1, 1) }
    [5, "errors of 2 parts"] fn merge_21() { merge_same(2, 1) }
    [5, "errors of 2 parts"] fn merge_12() { merge_same(1, 2) }
    [5, "errors of 1 part"] fn merge_ahead() { merge_other(true) }
    [5, "errors of 1 part"] fn merge_behind() { merge_other(false) }
    [5, "errors of 0 parts"] fn add_0() { add__(0) }
    [5, "errors of 1 part"] fn add_1() { add__(1) }
    [5, "errors of 2 parts"] fn add_2() { add__(2) }
    /// Through ParseError: replaces what the closure adds. The inherent one: replaces all.
    [5, "errors of 0 parts"] fn set_expected_0() { set_expected__(0) }
    [5, "errors of 1 part"] fn set_expected_1() { set_expected__(1) }
    [5, "errors of 2 parts"] fn set_expected_2() { set_expected__(2) }
    [5, "errors of 0 parts"] fn set_expected_all0() { set_expected_all_(0) }
    [5, "errors of 1 part"] fn set_expected_all1() { set_expected_all_(1) }
    [5, "errors of 2 parts"] fn set_expected_all2() { set_expected_all_(2) }
    [5, "errors of 0 parts"] fn clear_expected_0() { clear_expected__(0) }
    [5, "errors of 1 part"] fn clear_expected_1() { clear_expected__(1) }
    [5, "errors of 2 parts"] fn clear_expected_2() { clear_expected__(2) }
    [14, "errors of 0 parts"] fn end_of_input_0() { end_of_input__(0) }
    [14, "errors of 1 part"] fn end_of_input_1() { end_of_input__(1) }
    [14, "errors of 2 parts"] fn end_of_input_2() { end_of_input__(2) }
    [14] fn map_one() {
        let c = code();
        let r = make(c).map_token(|t| t ^ 50).map_range(|r| r ^ 100);
        check!(read(&r) == (c.0, c.1, c.2 ^ if c.1 == 0 { 50 } else if c.1 == 1 { 100 } else { 0 }), "mapping changes only what it names");
        std::mem::forget(r);
    }
    /// What is unexpected, expected or a message stays so.
    [14] fn into_other_() {
        let c = code();
        let r: Ce = if nd::bool() { StreamError::into_other(make(c)) } else { StreamErrorInto::<u8, u8>::into_other_error::<Ce, u8, u8>(make(c)) };
        check!(r.0 == c, "a converted error says the same");
    }
    [5, "errors of 0 parts"] fn into_other_errors0() { into_other_errors_(0) }
    [5, "errors of 1 part"] fn into_other_errors1() { into_other_errors_(1) }
    [5, "errors of 2 parts"] fn into_other_errors2() { into_other_errors_(2) }
    [5, "errors of 0 parts"] fn into_other_single0() { into_other_single_(0) }
    [5, "errors of 1 part"] fn into_other_single1() { into_other_single_(1) }
    [5, "errors of 2 parts"] fn into_other_single2() { into_other_single_(2) }
    [5, "errors of 0 parts"] fn map_parts0() { map_parts_(0) }
    [5, "errors of 1 part"] fn map_parts1() { map_parts_(1) }
    [5, "errors of 2 parts"] fn map_parts2() { map_parts_(2) }
    /// The small error types.
    [14] fn unexpected_parse() {
        let (a, b) = (nd::bool(), nd::bool());
        let mk = |e: bool| if e { UnexpectedParse::Eoi } else { UnexpectedParse::Unexpected };
        let mut e = <UnexpectedParse as combine::error::ParseError<u8, u8, u8>>::from_error(nd::u8(), mk(a));
        check!(e == mk(a), "an error is made from its part");
        combine::error::ParseError::<u8, u8, u8>::add(&mut e, mk(b));
        check!(combine::error::ParseError::<u8, u8, u8>::is_unexpected_end_of_input(&e) == (a || b), "the end of the input is remembered");
        let r: SE = StreamError::<u8, u8>::into_other(mk(a));
        check!(r.is_unexpected_end_of_input() == a && (a || r.kind == 0), "a converted error says the same");
        let r: UnexpectedParse = StreamErrorInto::<u8, u8>::into_other_error::<UnexpectedParse, u8, u8>(mk(a));
        check!(r == mk(a), "a converted error says the same");
    }
    [16] fn string_stream_error() {
        let (a, b) = (nd::bool(), nd::bool());
        let mk = |e: bool| if e { StringStreamError::Eoi } else { StringStreamError::UnexpectedParse };
        let mut e = <StringStreamError as combine::error::ParseError<char, u8, u8>>::from_error(nd::u8(), mk(a));
        check!(e == mk(a), "an error is made from its part");
        combine::error::ParseError::<char, u8, u8>::add(&mut e, mk(b));
        check!(combine::error::ParseError::<char, u8, u8>::is_unexpected_end_of_input(&e) == (a || b), "the end of the input is remembered");
        let r: SE = StreamError::<u8, u8>::into_other(mk(a));
        check!(r.is_unexpected_end_of_input() == a && (a || r.kind == 0), "a converted error says the same");
        let r: StringStreamError = StreamErrorInto::<char, u8>::into_other_error::<StringStreamError, char, u8>(mk(a));
        check!(r == mk(a), "a converted error says the same");
    }
}
