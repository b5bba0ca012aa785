//! The contract of the memchr crate, whose vector instructions the verifier cannot see: every
//! function by its definition. Used in place of the real dependency when combine is verified.
#![no_std]

macro_rules! search {
    ($name:ident, $rname:ident, $iter:ident, $riter:ident, $ty:ident, $($n:ident),+) => {
        pub fn $name($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = 0;
            while i < haystack.len() {
                if false $(|| haystack[i] == $n)+ {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn $rname($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = haystack.len();
            while i > 0 {
                i -= 1;
                if false $(|| haystack[i] == $n)+ {
                    return Some(i);
                }
            }
            None
        }
        #[derive(Clone, Debug)]
        pub struct $ty<'h> {
            $($n: u8,)+
            haystack: &'h [u8],
            at: usize,
            end: usize,
        }
        impl<'h> $ty<'h> {
            pub fn new($($n: u8,)+ haystack: &'h [u8]) -> Self {
                $ty { $($n,)+ haystack, at: 0, end: haystack.len() }
            }
        }
        impl<'h> Iterator for $ty<'h> {
            type Item = usize;
            fn next(&mut self) -> Option<usize> {
                while self.at < self.end {
                    let i = self.at;
                    self.at += 1;
                    if false $(|| self.haystack[i] == self.$n)+ {
                        return Some(i);
                    }
                }
                None
            }
        }
        impl<'h> DoubleEndedIterator for $ty<'h> {
            fn next_back(&mut self) -> Option<usize> {
                while self.at < self.end {
                    self.end -= 1;
                    if false $(|| self.haystack[self.end] == self.$n)+ {
                        return Some(self.end);
                    }
                }
                None
            }
        }
        pub fn $iter<'h>($($n: u8,)+ haystack: &'h [u8]) -> $ty<'h> {
            $ty::new($($n,)+ haystack)
        }
        pub fn $riter<'h>($($n: u8,)+ haystack: &'h [u8]) -> core::iter::Rev<$ty<'h>> {
            $ty::new($($n,)+ haystack).rev()
        }
    };
}
search!(memchr, memrchr, memchr_iter, memrchr_iter, Memchr, needle1);
search!(memchr2, memrchr2, memchr2_iter, memrchr2_iter, Memchr2, needle1, needle2);
search!(memchr3, memrchr3, memchr3_iter, memrchr3_iter, Memchr3, needle1, needle2, needle3);

pub mod memmem {
    pub fn find(haystack: &[u8], needle: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + needle.len() <= haystack.len() {
            let mut j = 0;
            while j < needle.len() && haystack[i + j] == needle[j] {
                j += 1;
            }
            if j == needle.len() {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub struct Finder<'n>(&'n [u8]);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(needle: &'n B) -> Self {
            Finder(needle.as_ref())
        }
        pub fn find(&self, haystack: &[u8]) -> Option<usize> {
            find(haystack, self.0)
        }
        pub fn needle(&self) -> &[u8] {
            self.0
        }
    }
}
