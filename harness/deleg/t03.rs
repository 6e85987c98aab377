#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs)]
extern crate tokio03_crate as tokio;
#[macro_use]
mod common;
pub use common::*;
#[path = "pollcommon.rs"]
mod pollcommon;
pub use pollcommon::*;
use std::io::{Result, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::*;

impl<const I: usize> AsyncRead for P<I> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let r = enter(&*self, "poll_read", got(buf.initialized()), wid(cx));
        buf.put_slice(&BYTES[..r.saturating_sub(2)]);
        dpollio0(leave(r))
    }
}
drv!(pin read, s, c, cx, [AsyncRead], {
    "poll_read" => {
        let mut b = [0u8; 8];
        let mut b = ReadBuf::new(&mut b[..c.a]);
        give(b.initialized());
        let x = epollio0(s.as_mut().poll_read(cx, &mut b), c.r);
        if b.filled() == &BYTES[..c.r.saturating_sub(2)] { x } else { BAD }
    },
});
enums!(read_, read, [c m], tokio03::AsyncRead);
impl<const I: usize> AsyncBufRead for P<I> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        dpollio(leave(enter(&*self, "poll_fill_buf", 0, wid(cx)))).map(|r| r.map(dbytes))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        enter(&*self, "consume", amt, 0);
        leave(0);
    }
}
drv!(pin buf_read, s, c, cx, [AsyncBufRead], {
    "poll_fill_buf" => epollio(s.as_mut().poll_fill_buf(cx).map(|r| r.map(ebytes))),
    "consume" => { s.as_mut().consume(c.a); 0 },
});
enums!(buf_read_, buf_read, [c m], tokio03::AsyncBufRead, tokio03::AsyncRead);
impl<const I: usize> AsyncWrite for P<I> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        dpollio(leave(enter(&*self, "poll_write", got(buf), wid(cx))))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        dpollio0(leave(enter(&*self, "poll_flush", 0, wid(cx))))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        dpollio0(leave(enter(&*self, "poll_shutdown", 0, wid(cx))))
    }
}
drv!(pin write, s, c, cx, [AsyncWrite], {
    "poll_write" => epollio(s.as_mut().poll_write(cx, wbuf(c.a))),
    "write_vectored_def" => wvec(c.a, |b| epollio(s.as_mut().poll_write_vectored(cx, b))),
    "poll_flush" => epollio0(s.as_mut().poll_flush(cx), c.r),
    "poll_shutdown" => epollio0(s.as_mut().poll_shutdown(cx), c.r),
});
enums!(write_, write, [c m], tokio03::AsyncWrite);
impl<const I: usize> AsyncSeek for P<I> {
    fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> Result<()> {
        dio0(leave(enter(&*self, "start_seek", eseek(pos), 0)))
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        dpollio(leave(enter(&*self, "poll_complete", 0, wid(cx)))).map(|r| r.map(|x| x as u64))
    }
}
drv!(pin seek, s, c, cx, [AsyncSeek], {
    "start_seek" => eio0(s.as_mut().start_seek(dseek(c.a)), c.r),
    "poll_complete" => epollio(s.as_mut().poll_complete(cx).map(|r| r.map(|x| x as usize))),
});
enums!(seek_, seek, [c m], tokio03::AsyncSeek);

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "tokio03::AsyncRead" => read_::run(s, n, v, tw, c),
        "tokio03::AsyncBufRead" => buf_read_::run(s, n, v, tw, c),
        "tokio03::AsyncWrite" => write_::run(s, n, v, tw, c),
        "tokio03::AsyncSeek" => seek_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
