#![allow(warnings)]
//! Native runs of the C18 harnesses with the real `bytes` crate and the asynchronous readers,
//! which are beyond the verifier: bounded searches only.
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/c18.rs"]
pub mod c18;
pub mod c18_io;
pub mod cases {
    pub struct Case {
        pub property: &'static str,
        pub name: &'static str,
        pub run: fn() -> Result<(), String>,
    }
    pub const CASES: &[Case] = &[];
}
pub fn all() -> Vec<(&'static str, fn())> {
    [c18::LIST, c18_io::LIST].concat()
}
