//! C18 with asynchronous readers: as c18, but a read may also have to be waited for.
use crate::c18::*;
use crate::nd;
use crate::{check, cover, harnesses};
use combine::stream::buf_reader::BufReader;
use combine::stream::position;
use combine::stream::{Decoder, decoder};
use std::future::Future;
use std::io::{self, Read};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// How often a read may still have to be waited for.
pub struct Slow {
    r: Pieces,
    waits: u8,
}
fn slow() -> Slow {
    *seen() = ([0; 8], 0);
    *end_() = (false, false);
    // What the bytes are makes no difference
    let r = Pieces { data: [1, 2, 3], n: nd::below(4) as usize, at: 0, fails: true, failed: false };
    Slow { r, waits: 2 }
}
impl Slow {
    fn poll(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.waits > 0 && nd::bool() {
            self.waits -= 1;
            return Poll::Pending;
        }
        Poll::Ready(self.r.read(buf))
    }
    fn fill(&mut self, free: usize) -> Poll<io::Result<([u8; 2], usize)>> {
        let mut b = [0; 2];
        let n = if free < 2 { free } else { 2 };
        self.poll(&mut b[..n]).map_ok(|n| (b, n))
    }
}
impl tokio::io::AsyncRead for Slow {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.get_mut().fill(buf.remaining()).map_ok(|(b, n)| buf.put_slice(&b[..n]))
    }
}
impl tokio_03::io::AsyncRead for Slow {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio_03::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.get_mut().fill(buf.remaining()).map_ok(|(b, n)| buf.put_slice(&b[..n]))
    }
}
impl tokio_02::io::AsyncRead for Slow {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.get_mut().poll(buf)
    }
}
impl futures_io::AsyncRead for Slow {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.get_mut().poll(buf)
    }
}

fn waker() -> Waker {
    const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| (), |_| (), |_| ());
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) }
}
/// Polls until it is done; `left` is how often it may still have to wait.
fn finish<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    for _ in 0..4 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
    panic!("obligation failed: it waits only when the reader does")
}

macro_rules! bufreader {
    ($decode:ident) => {
            pub fn bufferless() {
                let mut b = BufReader::with_capacity(nd::below(3) as usize, slow());
                let mut d: Decoder<u8, Count, _> = Decoder::new_bufferless();
                let x = finish(async { combine::$decode!(d, b, Any(7), |i, p| position::Stream::with_positioner(i, p)) }).map_err(io);
                outcome(&x, 7);
                check!(x != Err(true) || b.get_ref().r.failed, "only a failing read is reported as one");
                check_all(&b.get_ref().r, b.buffer(), x != Err(false), 0);
                check!(d.position().0 == seen().1, "the position tells what has been consumed");
                if x == Err(false) {
                    return;
                }
                // What is left may be read in another way
                let one = seen().1;
                if nd::bool() {
                    let mut d: Decoder<u8, Count, _> = Decoder::new_bufferless();
                    let x = finish(async { combine::$decode!(d, b, Any(9), |i, p| position::Stream::with_positioner(i, p)) });
                    let x = x.map_err(|e| matches!(e, decoder::Error::Io { .. }));
                    outcome(&x, 9);
                    check_all(&b.get_ref().r, b.buffer(), x != Err(false), one);
                    check!(d.position().0 == seen().1 - one, "the position tells what has been consumed");
                } else {
                    plain(&mut b);
                }
            }
            fn plain(b: &mut BufReader<Slow>) {
                for _ in 0..3 {
                    let w = 1 + nd::below(2) as usize;
                    match read(b, w) {
                        Ok((t, k)) => {
                            check!(k <= w && (k > 0 || b.get_ref().r.at == b.get_ref().r.n), "a read gives something until the end");
                            let s = seen();
                            for i in 0..k {
                                s.0[s.1] = t[i];
                                s.1 += 1;
                            }
                        }
                        Err(_) => check!(b.get_ref().r.failed, "only a failing read is reported as one"),
                    }
                }
                check_all(&b.get_ref().r, b.buffer(), true, 0);
            }
            pub fn reader() {
                plain(&mut BufReader::with_capacity(nd::below(3) as usize, slow()));
            }
    };
}
macro_rules! flavour {
    ($m:ident, $decode:ident, $($buf:tt)*) => {
        pub mod $m {
            use super::*;
            pub fn buffer() {
                let mut r = slow();
                let mut d: Decoder<u8, Count> = Decoder::new();
                let x = finish(async { combine::$decode!(d, r, Any(7), |i, p| position::Stream::with_positioner(i, p)) }).map_err(io);
                outcome(&x, 7);
                check!(x != Err(true) || r.r.failed, "only a failing read is reported as one");
                check_all(&r.r, d.buffer(), x != Err(false), 0);
                check!(d.position().0 == seen().1, "the position tells what has been consumed");
                if x == Err(false) {
                    return;
                }
                let one = seen().1;
                let x = finish(async { combine::$decode!(d, r, Any(9), |i, p| position::Stream::with_positioner(i, p)) }).map_err(io);
                outcome(&x, 9);
                check_all(&r.r, d.buffer(), x != Err(false), one);
                check!(d.position().0 == seen().1, "the position tells what has been consumed");
            }
            $($buf)*
        }
    };
}
/// As `read` of the reader, or `fill_buf` and `consume`.
macro_rules! slice_read {
    ($t:path, $b:path) => {
        fn read(b: &mut BufReader<Slow>, w: usize) -> io::Result<([u8; 2], usize)> {
            use $b as B;
            use $t as R;
            let mut t = [0; 2];
            if nd::bool() {
                return poll(|cx| R::poll_read(Pin::new(&mut *b), cx, &mut t[..w])).map(|n| (t, n));
            }
            let mut n = 0;
            poll(|cx| match B::poll_fill_buf(Pin::new(&mut *b), cx) {
                Poll::Ready(Ok(s)) => {
                    n = s.len().min(w);
                    t[..n].copy_from_slice(&s[..n]);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            })?;
            B::consume(Pin::new(b), n);
            Ok((t, n))
        }
    };
}
macro_rules! buf_read {
    ($t:path, $b:path, $rb:path) => {
        fn read(b: &mut BufReader<Slow>, w: usize) -> io::Result<([u8; 2], usize)> {
            use $b as B;
            use $rb as Buf;
            use $t as R;
            let mut t = [0; 2];
            if nd::bool() {
                let mut n = 0;
                poll(|cx| {
                    let mut x = Buf::new(&mut t[..w]);
                    let r = R::poll_read(Pin::new(&mut *b), cx, &mut x);
                    n = x.filled().len();
                    r
                })?;
                return Ok((t, n));
            }
            let mut n = 0;
            poll(|cx| match B::poll_fill_buf(Pin::new(&mut *b), cx) {
                Poll::Ready(Ok(s)) => {
                    n = s.len().min(w);
                    t[..n].copy_from_slice(&s[..n]);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            })?;
            B::consume(Pin::new(b), n);
            Ok((t, n))
        }
    };
}
fn poll<T>(mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
    finish(std::future::poll_fn(move |cx| f(cx)))
}
flavour!(t1, decode_tokio, bufreader!(decode_tokio); buf_read!(tokio::io::AsyncRead, tokio::io::AsyncBufRead, tokio::io::ReadBuf););
flavour!(t3, decode_tokio_03, bufreader!(decode_tokio_03); buf_read!(tokio_03::io::AsyncRead, tokio_03::io::AsyncBufRead, tokio_03::io::ReadBuf););
flavour!(t2, decode_tokio_02, bufreader!(decode_tokio_02); slice_read!(tokio_02::io::AsyncRead, tokio_02::io::AsyncBufRead););
flavour!(f3, decode_futures_03,);

harnesses! {
    [0, "up to 3 bytes of input"] fn tokio_1() { t1::buffer() }
    [0, "up to 3 bytes of input"] fn tokio_1_bufferless() { t1::bufferless() }
    [0, "up to 3 bytes of input"] fn tokio_1_reader() { t1::reader() }
    [0, "up to 3 bytes of input"] fn tokio_02() { t2::buffer() }
    [0, "up to 3 bytes of input"] fn tokio_02_bufferless() { t2::bufferless() }
    [0, "up to 3 bytes of input"] fn tokio_02_reader() { t2::reader() }
    [0, "up to 3 bytes of input"] fn futures_03() { f3::buffer() }
    [0, "up to 3 bytes of input"] fn tokio_03() { t3::buffer() }
    [0, "up to 3 bytes of input"] fn tokio_03_bufferless() { t3::bufferless() }
    [0, "up to 3 bytes of input"] fn tokio_03_reader() { t3::reader() }
}
