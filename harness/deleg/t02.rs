#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs)]
extern crate tokio02_crate as tokio;
#[macro_use]
mod common;
pub use common::*;
#[path = "pollcommon.rs"]
mod pollcommon;
pub use pollcommon::*;
use std::io::{Result, SeekFrom};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::*;

impl<const I: usize> AsyncRead for P<I> {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [MaybeUninit<u8>]) -> bool {
        let l = if buf.as_ptr() as usize == BUF.load(std::sync::atomic::Ordering::SeqCst) { buf.len() } else { BAD };
        leave(enter(self, "prepare_uninitialized_buffer", l, 0).min(1)) > 0
    }
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        let r = enter(&*self, "poll_read", got(buf), wid(cx));
        fill(buf, r.saturating_sub(2));
        dpollio(leave(r))
    }
}
fn prep(a: usize, f: impl FnOnce(&mut [MaybeUninit<u8>]) -> bool) -> usize {
    let mut b = [MaybeUninit::new(0u8); 8];
    give(unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u8, 8) });
    f(&mut b[..a]) as usize
}
drv!(pin read, s, c, cx, [AsyncRead], {
    "prepare_uninitialized_buffer" => prep(c.a, |b| unsafe { s.prepare_uninitialized_buffer(b) }),
    "poll_read" => rbuf2(c, c.a, |b| epollio(s.as_mut().poll_read(cx, b))),
});
enums!(read_, read, [c m], tokio02::AsyncRead);
impl<const I: usize> AsyncBufRead for P<I> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        dpollio(leave(enter(&*self, "poll_fill_buf", 0, wid(cx)))).map(|r| r.map(dbytes))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        enter(&*self, "consume", amt, 0);
        leave(0);
    }
}
drv!(pin buf_read, s, c, cx, [AsyncBufRead], {
    "poll_fill_buf" => epollio(s.as_mut().poll_fill_buf(cx).map(|r| r.map(ebytes))),
    "consume" => { s.as_mut().consume(c.a); 0 },
});
enums!(buf_read_, buf_read, [c m], tokio02::AsyncBufRead, tokio02::AsyncRead);
impl<const I: usize> AsyncWrite for P<I> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        dpollio(leave(enter(&*self, "poll_write", got(buf), wid(cx))))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        dpollio0(leave(enter(&*self, "poll_flush", 0, wid(cx))))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        dpollio0(leave(enter(&*self, "poll_shutdown", 0, wid(cx))))
    }
}
drv!(pin write, s, c, cx, [AsyncWrite], {
    "poll_write" => epollio(s.as_mut().poll_write(cx, wbuf(c.a))),
    "poll_flush" => epollio0(s.as_mut().poll_flush(cx), c.r),
    "poll_shutdown" => epollio0(s.as_mut().poll_shutdown(cx), c.r),
});
enums!(write_, write, [c m], tokio02::AsyncWrite);
impl<const I: usize> AsyncSeek for P<I> {
    fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<Result<()>> {
        dpollio0(leave(enter(&*self, "start_seek", eseek(pos), wid(cx))))
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        dpollio(leave(enter(&*self, "poll_complete", 0, wid(cx)))).map(|r| r.map(|x| x as u64))
    }
}
drv!(pin seek, s, c, cx, [AsyncSeek], {
    "start_seek" => epollio0(s.as_mut().start_seek(cx, dseek(c.a)), c.r),
    "poll_complete" => epollio(s.as_mut().poll_complete(cx).map(|r| r.map(|x| x as usize))),
});
enums!(seek_, seek, [c m], tokio02::AsyncSeek);

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "tokio02::AsyncRead" => read_::run(s, n, v, tw, c),
        "tokio02::AsyncBufRead" => buf_read_::run(s, n, v, tw, c),
        "tokio02::AsyncWrite" => write_::run(s, n, v, tw, c),
        "tokio02::AsyncSeek" => seek_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
