#![feature(coroutine_trait)]
#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs)]
extern crate futures03_crate as futures;
extern crate http_body1_crate as http_body;
extern crate tokio1_crate as tokio;
#[macro_use]
mod common;
pub use common::*;
#[path = "pollcommon.rs"]
mod pollcommon;
pub use pollcommon::*;
use std::io::{IoSlice, IoSliceMut, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ core
impl<const I: usize> std::future::Future for P<I> {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        dpoll(leave(enter(&*self, "poll", 0, wid(cx))))
    }
}
drv!(pin future, s, c, cx, [std::future::Future<Output = usize>], {
    "poll" => epoll(s.as_mut().poll(cx)),
    "poll_ref" => epoll(std::future::Future::poll(Pin::new(&mut s.as_mut()), cx)),
    "poll_await" => epoll(std::future::Future::poll(std::pin::pin!(async { s.as_mut().await }), cx)),
});
enums!(future_, future, [c], Future);

impl<const I: usize> std::ops::Coroutine<usize> for P<I> {
    type Yield = usize;
    type Return = usize;
    fn resume(self: Pin<&mut Self>, arg: usize) -> std::ops::CoroutineState<usize, usize> {
        match leave(enter(&*self, "resume", arg, 0)) {
            r if r % 2 == 0 => std::ops::CoroutineState::Yielded(r),
            r => std::ops::CoroutineState::Complete(r),
        }
    }
}
drv!(pin coroutine, s, c, cx, [std::ops::Coroutine<usize, Yield = usize, Return = usize>], {
    "resume" => match s.as_mut().resume(c.a) {
        std::ops::CoroutineState::Yielded(r) if r % 2 == 0 => r,
        std::ops::CoroutineState::Complete(r) if r % 2 == 1 => r,
        _ => BAD,
    },
});
enums!(coroutine_, coroutine, [], Coroutine);

// ------------------------------------------------------------------ futures 0.3
impl<const I: usize> futures::stream::Stream for P<I> {
    type Item = usize;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<usize>> {
        dpollopt(leave(enter(&*self, "poll_next", 0, wid(cx))))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        dhint(leave(enter(self, "size_hint", 0, 0)))
    }
}
drv!(pin stream, s, c, cx, [futures::stream::Stream<Item = usize>], {
    "poll_next" => epollopt(s.as_mut().poll_next(cx)),
    "size_hint" => ehint(s.size_hint()),
    "next_map" => { use futures::stream::StreamExt; epollopt(futures::stream::Stream::poll_next(std::pin::pin!(s.as_mut().map(|x| { cb(x, ()); x })), cx)) },
});
enums!(stream_, stream, [c], futures03::Stream);

impl<const I: usize> futures::sink::Sink<usize> for P<I> {
    type Error = E;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        dpollres(leave(enter(&*self, "poll_ready", 0, wid(cx))))
    }
    fn start_send(self: Pin<&mut Self>, item: usize) -> Result<(), E> {
        dres(leave(enter(&*self, "start_send", item, 0))).map(|_| ())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        dpollres(leave(enter(&*self, "poll_flush", 0, wid(cx))))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        dpollres(leave(enter(&*self, "poll_close", 0, wid(cx))))
    }
}
drv!(pin sink, s, c, cx, [futures::sink::Sink<usize, Error = E>], {
    "poll_ready" => epollres(s.as_mut().poll_ready(cx), c.r),
    "start_send" => match s.as_mut().start_send(c.a) { Ok(()) => c.r, Err(E(5)) => 0, _ => BAD },
    "poll_flush" => epollres(s.as_mut().poll_flush(cx), c.r),
    "poll_close" => epollres(s.as_mut().poll_close(cx), c.r),
});
enums!(sink_, sink, [], futures03::Sink);

mod f3 {
    use super::*;
    use futures::io::*;
    impl<const I: usize> AsyncRead for P<I> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
            let r = enter(&*self, "poll_read", got(buf), wid(cx));
            fill(buf, r.saturating_sub(2));
            dpollio(leave(r))
        }
        fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<Result<usize>> {
            let r = enter(&*self, "poll_read_vectored", bufs.len() * 10 + bufs.first().map_or(0, |b| got(b)), wid(cx));
            if let Some(b) = bufs.first_mut() {
                fill(b, r.saturating_sub(2));
            }
            dpollio(leave(r))
        }
    }
    drv!(pin read, s, c, cx, [AsyncRead], {
        "poll_read" => rbuf2(c, c.a, |b| epollio(s.as_mut().poll_read(cx, b))),
        "poll_read_vectored" => {
            let mut b2 = [0u8; 2];
            rbuf2(c, c.a % 10, |b| {
                if c.a / 10 == 1 { epollio(s.as_mut().poll_read_vectored(cx, &mut [IoSliceMut::new(b)])) } else { epollio(s.as_mut().poll_read_vectored(cx, &mut [IoSliceMut::new(b), IoSliceMut::new(&mut b2)])) }
            })
        },
    });
    enums!(read_, read, [c m], futures03::AsyncRead);
    impl<const I: usize> AsyncBufRead for P<I> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            dpollio(leave(enter(&*self, "poll_fill_buf", 0, wid(cx)))).map(|r| r.map(dbytes))
        }
        fn consume(self: Pin<&mut Self>, amt: usize) {
            enter(&*self, "consume", amt, 0);
            leave(0);
        }
    }
    drv!(pin buf_read, s, c, cx, [AsyncBufRead], {
        "poll_fill_buf" => epollio(s.as_mut().poll_fill_buf(cx).map(|r| r.map(ebytes))),
        "consume" => { s.as_mut().consume(c.a); 0 },
        "poll_read" => rbuf2(c, c.a, |b| epollio(s.as_mut().poll_read(cx, b))),
    });
    enums!(buf_read_, buf_read, [c m], futures03::AsyncBufRead, futures03::AsyncRead);
    impl<const I: usize> AsyncWrite for P<I> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            dpollio(leave(enter(&*self, "poll_write", got(buf), wid(cx))))
        }
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
            dpollio(leave(enter(&*self, "poll_write_vectored", bufs.len() * 10 + bufs.first().map_or(0, |b| got(b)), wid(cx))))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            dpollio0(leave(enter(&*self, "poll_flush", 0, wid(cx))))
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            dpollio0(leave(enter(&*self, "poll_close", 0, wid(cx))))
        }
    }
    drv!(pin write, s, c, cx, [AsyncWrite], {
        "poll_write" => epollio(s.as_mut().poll_write(cx, wbuf(c.a))),
        "poll_write_vectored" => wvec(c.a, |b| epollio(s.as_mut().poll_write_vectored(cx, b))),
        "poll_flush" => epollio0(s.as_mut().poll_flush(cx), c.r),
        "poll_close" => epollio0(s.as_mut().poll_close(cx), c.r),
    });
    enums!(write_, write, [c m], futures03::AsyncWrite);
    impl<const I: usize> AsyncSeek for P<I> {
        fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<Result<u64>> {
            dpollio(leave(enter(&*self, "poll_seek", eseek(pos), wid(cx)))).map(|r| r.map(|x| x as u64))
        }
    }
    drv!(pin seek, s, c, cx, [AsyncSeek], {
        "poll_seek" => epollio(s.as_mut().poll_seek(cx, dseek(c.a)).map(|r| r.map(|x| x as usize))),
    });
    enums!(seek_, seek, [c m], futures03::AsyncSeek);
}

// ------------------------------------------------------------------ tokio 1
mod t1 {
    use super::*;
    use std::io::Result;
    use tokio::io::*;
    impl<const I: usize> AsyncRead for P<I> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let r = enter(&*self, "poll_read", got(buf.initialized()), wid(cx));
            buf.put_slice(&BYTES[..r.saturating_sub(2)]);
            dpollio0(leave(r))
        }
    }
    drv!(pin read, s, c, cx, [AsyncRead], {
        "poll_read" => {
            let mut b = [0u8; 8];
            let mut b = ReadBuf::new(&mut b[..c.a]);
            give(b.initialized());
            let x = epollio0(s.as_mut().poll_read(cx, &mut b), c.r);
            if b.filled() == &BYTES[..c.r.saturating_sub(2)] { x } else { BAD }
        },
    });
    enums!(read_, read, [c m], tokio1::AsyncRead);
    impl<const I: usize> AsyncBufRead for P<I> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            dpollio(leave(enter(&*self, "poll_fill_buf", 0, wid(cx)))).map(|r| r.map(dbytes))
        }
        fn consume(self: Pin<&mut Self>, amt: usize) {
            enter(&*self, "consume", amt, 0);
            leave(0);
        }
    }
    drv!(pin buf_read, s, c, cx, [AsyncBufRead], {
        "poll_fill_buf" => epollio(s.as_mut().poll_fill_buf(cx).map(|r| r.map(ebytes))),
        "consume" => { s.as_mut().consume(c.a); 0 },
    });
    enums!(buf_read_, buf_read, [c m], tokio1::AsyncBufRead, tokio1::AsyncRead);
    impl<const I: usize> AsyncWrite for P<I> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            dpollio(leave(enter(&*self, "poll_write", got(buf), wid(cx))))
        }
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
            dpollio(leave(enter(&*self, "poll_write_vectored", bufs.len() * 10 + bufs.first().map_or(0, |b| got(b)), wid(cx))))
        }
        fn is_write_vectored(&self) -> bool {
            leave(enter(self, "is_write_vectored", 0, 0).min(1)) > 0
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            dpollio0(leave(enter(&*self, "poll_flush", 0, wid(cx))))
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            dpollio0(leave(enter(&*self, "poll_shutdown", 0, wid(cx))))
        }
    }
    drv!(pin write, s, c, cx, [AsyncWrite], {
        "poll_write" => epollio(s.as_mut().poll_write(cx, wbuf(c.a))),
        "poll_write_vectored" => wvec(c.a, |b| epollio(s.as_mut().poll_write_vectored(cx, b))),
        "is_write_vectored" => s.is_write_vectored() as usize,
        "poll_flush" => epollio0(s.as_mut().poll_flush(cx), c.r),
        "poll_shutdown" => epollio0(s.as_mut().poll_shutdown(cx), c.r),
    });
    enums!(write_, write, [c m], tokio1::AsyncWrite);
    impl<const I: usize> AsyncSeek for P<I> {
        fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> Result<()> {
            dio0(leave(enter(&*self, "start_seek", eseek(pos), 0)))
        }
        fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
            dpollio(leave(enter(&*self, "poll_complete", 0, wid(cx)))).map(|r| r.map(|x| x as u64))
        }
    }
    drv!(pin seek, s, c, cx, [AsyncSeek], {
        "start_seek" => eio0(s.as_mut().start_seek(dseek(c.a)), c.r),
        "poll_complete" => epollio(s.as_mut().poll_complete(cx).map(|r| r.map(|x| x as usize))),
    });
    enums!(seek_, seek, [c m], tokio1::AsyncSeek);
}

// ------------------------------------------------------------------ http_body 1
impl<const I: usize> http_body::Body for P<I> {
    type Data = &'static [u8];
    type Error = E;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<&'static [u8]>, E>>> {
        match leave(enter(&*self, "poll_frame", 0, wid(cx))) {
            0 => Poll::Pending,
            1 => Poll::Ready(None),
            2 => Poll::Ready(Some(Err(E(5)))),
            r => Poll::Ready(Some(Ok(http_body::Frame::data(dbytes(r))))),
        }
    }
    fn is_end_stream(&self) -> bool {
        leave(enter(self, "is_end_stream", 0, 0).min(1)) > 0
    }
    fn size_hint(&self) -> http_body::SizeHint {
        http_body::SizeHint::with_exact(leave(enter(self, "size_hint", 0, 0)) as u64)
    }
}
drv!(pin body, s, c, cx, [http_body::Body<Data = &'static [u8], Error = E>], {
    "poll_frame" => match s.as_mut().poll_frame(cx) {
        Poll::Pending => 0,
        Poll::Ready(None) => 1,
        Poll::Ready(Some(Err(E(5)))) => 2,
        Poll::Ready(Some(Ok(f))) => f.data_ref().map_or(BAD, |b| ebytes(b)),
        _ => BAD,
    },
    "is_end_stream" => s.is_end_stream() as usize,
    "size_hint" => s.size_hint().exact().map_or(BAD, |x| x as usize),
});
enums!(body_, body, [c], http_body1::Body);

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "Future" => future_::run(s, n, v, tw, c),
        "Coroutine" => coroutine_::run(s, n, v, tw, c),
        "futures03::Stream" => stream_::run(s, n, v, tw, c),
        "futures03::Sink" => sink_::run(s, n, v, tw, c),
        "futures03::AsyncRead" => f3::read_::run(s, n, v, tw, c),
        "futures03::AsyncBufRead" => f3::buf_read_::run(s, n, v, tw, c),
        "futures03::AsyncWrite" => f3::write_::run(s, n, v, tw, c),
        "futures03::AsyncSeek" => f3::seek_::run(s, n, v, tw, c),
        "tokio1::AsyncRead" => t1::read_::run(s, n, v, tw, c),
        "tokio1::AsyncBufRead" => t1::buf_read_::run(s, n, v, tw, c),
        "tokio1::AsyncWrite" => t1::write_::run(s, n, v, tw, c),
        "tokio1::AsyncSeek" => t1::seek_::run(s, n, v, tw, c),
        "http_body1::Body" => body_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
