//! Contract of the parts of `bytes::BytesMut` that combine uses: a buffer whose contents are
//! extended at the end and removed from the front. Of the capacity only what callers may rely on
//! is kept: it is never below the length, and `reserve` makes room for at least something.
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};

const SPACE: usize = 8;

#[derive(Debug)]
pub struct BytesMut {
    v: [u8; SPACE],
    start: usize,
    end: usize,
    cap: usize,
}
impl BytesMut {
    pub fn new() -> Self {
        BytesMut { v: [0; SPACE], start: 0, end: 0, cap: 0 }
    }
    pub fn with_capacity(n: usize) -> Self {
        let mut b = Self::new();
        b.cap = if n < SPACE { n } else { SPACE };
        b
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn is_empty(&self) -> bool {
        self.end == self.start
    }
    pub fn capacity(&self) -> usize {
        self.cap - self.start
    }
    pub fn reserve(&mut self, n: usize) {
        if n > 0 && self.cap == self.end {
            assert!(self.end < SPACE, "model: the space suffices");
            self.cap = if self.end + 2 < SPACE { self.end + 2 } else { SPACE };
        }
    }
    pub fn clear(&mut self) {
        self.end = self.start;
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len() {
            self.end = self.start + n;
        }
    }
    pub fn spare_capacity_mut(&mut self) -> &mut [MaybeUninit<u8>] {
        let n = self.cap - self.end;
        unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().add(self.end).cast(), n) }
    }
    pub fn extend_from_slice(&mut self, s: &[u8]) {
        for b in s {
            self.reserve(1);
            self.v[self.end] = *b;
            self.end += 1;
        }
    }
}
impl Default for BytesMut {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for BytesMut {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.v[self.start..self.end]
    }
}
impl DerefMut for BytesMut {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.v[self.start..self.end]
    }
}

pub trait Buf {
    fn remaining(&self) -> usize;
    fn advance(&mut self, n: usize);
    fn has_remaining(&self) -> bool {
        self.remaining() > 0
    }
}
impl Buf for BytesMut {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.len(), "no more is removed than is there");
        self.start += n;
    }
}
pub unsafe trait BufMut {
    fn remaining_mut(&self) -> usize;
    /// # Safety
    /// The next `n` bytes must be initialized.
    unsafe fn advance_mut(&mut self, n: usize);
    fn has_remaining_mut(&self) -> bool {
        self.remaining_mut() > 0
    }
}
unsafe impl BufMut for BytesMut {
    fn remaining_mut(&self) -> usize {
        usize::MAX - self.len()
    }
    unsafe fn advance_mut(&mut self, n: usize) {
        assert!(n <= self.cap - self.end, "no more is added than there is room for");
        self.end += n;
    }
}
