//! Source of nondeterminism shared by the verifier and by native runs.
//!
//! Under Kani every call is one `kani::any()`, so the proof is over all values. In a native run
//! the values come either from a recorded counterexample (replay) or from a depth first
//! enumeration of all choice sequences (search); both execute the same harness text.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn char() -> char {
        kani::any()
    }
    pub fn below(n: u8) -> u8 {
        let x: u8 = kani::any();
        kani::assume(x < n);
        x
    }
    /// Any value in `lo..=hi`; there must be one.
    pub fn within(lo: u8, hi: u8) -> u8 {
        let x: u8 = kani::any();
        kani::assume(lo <= x && x <= hi);
        x
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Discard;

    pub enum Mode {
        /// Recorded values, as printed by Kani's concrete playback (little endian bytes).
        Replay(Vec<Vec<u8>>),
        /// Depth first enumeration: (choice, bound) pairs.
        Enum(Vec<(u32, u32)>),
        /// Pseudo random choices, recorded.
        Rand(u64),
    }
    pub struct Src {
        pub mode: Mode,
        pub at: usize,
        pub trace: Vec<(char, u64)>,
    }
    thread_local!(pub static SRC: RefCell<Src> = RefCell::new(Src { mode: Mode::Enum(vec![]), at: 0, trace: vec![] }));

    const SAMPLE: [u64; 8] = [0, 1, 2, 3, 127, 128, 200, 255];

    fn draw(kind: char, bytes: usize, bound: Option<u64>) -> u64 {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            let s = &mut *s;
            let at = s.at;
            s.at += 1;
            let v = match &mut s.mode {
                Mode::Replay(vals) => {
                    let mut v = 0u64;
                    if let Some(b) = vals.get(at) {
                        for (i, x) in b.iter().enumerate().take(bytes) {
                            v |= (*x as u64) << (8 * i);
                        }
                    }
                    v
                }
                Mode::Enum(ch) => {
                    let n = bound.unwrap_or(SAMPLE.len() as u64) as u32;
                    if at >= ch.len() {
                        ch.push((0, n));
                    }
                    let c = ch[at].0 as u64;
                    if bound.is_some() {
                        c
                    } else {
                        SAMPLE[c as usize]
                    }
                }
                Mode::Rand(st) => {
                    *st ^= *st << 13;
                    *st ^= *st >> 7;
                    *st ^= *st << 17;
                    let r = st.wrapping_mul(0x2545F4914F6CDD1D);
                    match bound {
                        Some(b) => (r >> 20) % b,
                        None if (r >> 60) < 4 => SAMPLE[((r >> 20) & 7) as usize],
                        None => r >> 8 & if bytes >= 8 { u64::MAX } else { (1 << (8 * bytes)) - 1 },
                    }
                }
            };
            s.trace.push((kind, v));
            if s.trace.len() > 20000 {
                panic!("the parse does not terminate")
            }
            unsafe {
                let t = &mut *std::ptr::addr_of_mut!(SHARED);
                if at == 0 {
                    t.clear();
                }
                t.push((kind, v));
            }
            v
        })
    }
    // Copy of the trace for the watchdog, which only reads it while the run hangs
    static mut SHARED: Vec<(char, u64)> = vec![];
    pub fn shared_trace() -> Vec<(char, u64)> {
        unsafe { (*std::ptr::addr_of!(SHARED)).clone() }
    }
    pub fn u8() -> u8 {
        draw('b', 1, None) as u8
    }
    pub fn u32() -> u32 {
        draw('w', 4, None) as u32
    }
    pub fn u64() -> u64 {
        draw('q', 8, None)
    }
    pub fn usize() -> usize {
        draw('q', 8, None) as usize
    }
    pub fn bool() -> bool {
        draw('f', 1, Some(2)) != 0
    }
    pub fn char() -> char {
        const SAMPLE: [u32; 16] = [0, 9, 10, 13, 32, 0x37, 0x38, 0x41, 0x46, 0x67, 0x7a, 0xa0, 0xe9, 0x3a9, 0x2028, 0x1f600];
        let replay = SRC.with(|s| matches!(s.borrow().mode, Mode::Replay(_)));
        let mut v = draw('w', 4, if replay { None } else { Some(400) }) as u32;
        if !replay {
            v = if v < 256 { v } else { SAMPLE[v as usize & 15] };
            SRC.with(|s| s.borrow_mut().trace.last_mut().unwrap().1 = v as u64);
        }
        match std::char::from_u32(v) {
            Some(c) => c,
            None => std::panic::resume_unwind(Box::new(Discard)),
        }
    }
    pub fn below(n: u8) -> u8 {
        let v = draw('b', 1, Some(n as u64)) as u8;
        assume(v < n);
        v
    }
    pub fn within(lo: u8, hi: u8) -> u8 {
        let replay = SRC.with(|s| matches!(s.borrow().mode, Mode::Replay(_)));
        let v = draw('b', 1, Some(hi as u64 - lo as u64 + 1));
        let v = if replay {
            v as u8
        } else {
            // recorded as Kani records it
            let v = lo + v as u8;
            SRC.with(|s| s.borrow_mut().trace.last_mut().unwrap().1 = v as u64);
            v
        };
        assume(lo <= v && v <= hi);
        v
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::resume_unwind(Box::new(Discard))
        }
    }
    pub fn fail_unless(b: bool, msg: &'static str) {
        if !b {
            panic!("obligation failed: {}", msg)
        }
    }
}

pub use imp::*;

/// Reachability check: under Kani the condition must be satisfiable in the harness, which guards
/// against assumptions that exclude everything.
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:expr) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    };
}

/// An obligation of the property a harness decides.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        let c: bool = $c;
        #[cfg(kani)]
        kani::assert(c, $m);
        #[cfg(not(kani))]
        $crate::nd::fail_unless(c, $m);
    }};
}

/// Declares the harnesses of a module together with the list used by native runs.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$attr:meta])* [$unwind:expr $(, $bound:literal)?] fn $name:ident() $body:block )*) => {
        $(
            $(#[$attr])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name as fn()), )* ];
    };
}
