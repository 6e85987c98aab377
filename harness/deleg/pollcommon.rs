use crate::common::*;
use std::io::{IoSlice, SeekFrom};
use std::task::Poll;

// 0 Pending, k Ready(k)
pub fn dpoll(r: usize) -> Poll<usize> {
    if r == 0 { Poll::Pending } else { Poll::Ready(r) }
}
pub fn epoll(x: Poll<usize>) -> usize {
    match x {
        Poll::Pending => 0,
        Poll::Ready(0) => BAD,
        Poll::Ready(k) => k,
    }
}
// 0 Pending, 1 Ready(None), k Ready(Some(k))
pub fn dpollopt(r: usize) -> Poll<Option<usize>> {
    match r {
        0 => Poll::Pending,
        1 => Poll::Ready(None),
        r => Poll::Ready(Some(r)),
    }
}
pub fn epollopt(x: Poll<Option<usize>>) -> usize {
    match x {
        Poll::Pending => 0,
        Poll::Ready(None) => 1,
        Poll::Ready(Some(k)) if k > 1 => k,
        _ => BAD,
    }
}
// 0 Pending, 1 Ready(Err), k Ready(Ok(()))
pub fn dpollres(r: usize) -> Poll<Result<(), E>> {
    match r {
        0 => Poll::Pending,
        1 => Poll::Ready(Err(E(5))),
        _ => Poll::Ready(Ok(())),
    }
}
pub fn epollres(x: Poll<Result<(), E>>, r: usize) -> usize {
    match x {
        Poll::Pending => 0,
        Poll::Ready(Err(E(5))) => 1,
        Poll::Ready(Ok(())) => r,
        _ => BAD,
    }
}
// 0 Pending, 1 Ready(Err(os error 5)), k Ready(Ok(k - 2))
pub fn dpollio(r: usize) -> Poll<std::io::Result<usize>> {
    match r {
        0 => Poll::Pending,
        r => Poll::Ready(dio(r - 1)),
    }
}
pub fn epollio(x: Poll<std::io::Result<usize>>) -> usize {
    match x {
        Poll::Pending => 0,
        Poll::Ready(x) => eio(x) + 1,
    }
}
pub fn dpollio0(r: usize) -> Poll<std::io::Result<()>> {
    dpollio(r).map(|x| x.map(|_| ()))
}
pub fn epollio0(x: Poll<std::io::Result<()>>, r: usize) -> usize {
    match x {
        Poll::Pending => 0,
        Poll::Ready(Ok(())) => r,
        Poll::Ready(Err(e)) if e.raw_os_error() == Some(5) => 1,
        _ => BAD,
    }
}
pub fn dhint(r: usize) -> (usize, Option<usize>) {
    (r, if r == 0 { None } else { Some(r + 1) })
}
pub fn ehint((a, b): (usize, Option<usize>)) -> usize {
    if dhint(a).1 == b { a } else { BAD }
}
pub fn eseek(p: SeekFrom) -> usize {
    match p {
        SeekFrom::Start(1) => 0,
        SeekFrom::End(-2) => 1,
        SeekFrom::Current(3) => 2,
        _ => BAD,
    }
}
pub fn dseek(a: usize) -> SeekFrom {
    match a {
        0 => SeekFrom::Start(1),
        1 => SeekFrom::End(-2),
        _ => SeekFrom::Current(3),
    }
}
pub fn wbuf(n: usize) -> &'static [u8] {
    give(&BYTES);
    &BYTES[..n]
}
pub fn wvec(a: usize, f: impl FnOnce(&[IoSlice<'_>]) -> usize) -> usize {
    let b = wbuf(a % 10);
    if a / 10 == 1 { f(&[IoSlice::new(b)]) } else { f(&[IoSlice::new(b), IoSlice::new(b"zz")]) }
}
pub fn rbuf2(c: &Call, n: usize, f: impl FnOnce(&mut [u8]) -> usize) -> usize {
    let mut b = [0u8; 8];
    let b = &mut b[..n];
    give(b);
    let r = f(b);
    if filled(b, c.r.saturating_sub(2)) { r } else { BAD }
}
