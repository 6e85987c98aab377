#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs)]
extern crate futures01_crate as futures;
extern crate rayon_crate as rayon;
extern crate serde_crate as serde;
extern crate tokio01_crate as tokio;
#[macro_use]
mod common;
pub use common::*;
#[path = "pollcommon.rs"]
mod pollcommon;
pub use pollcommon::*;
use std::io::{Read, Write};

// 0 NotReady, 1 Err, k Ready(k)
fn d1(r: usize) -> futures::Poll<usize, E> {
    match r {
        0 => Ok(futures::Async::NotReady),
        1 => Err(E(5)),
        r => Ok(futures::Async::Ready(r)),
    }
}
fn e1(x: futures::Poll<usize, E>) -> usize {
    match x {
        Ok(futures::Async::NotReady) => 0,
        Err(E(5)) => 1,
        Ok(futures::Async::Ready(r)) if r > 1 => r,
        _ => BAD,
    }
}
fn d1u(r: usize) -> futures::Poll<(), E> {
    d1(r).map(|x| x.map(|_| ()))
}
fn e1u(x: futures::Poll<(), E>, r: usize) -> usize {
    e1(x.map(|x| x.map(|_| r)))
}
// io: 0 NotReady, 1 Err, k Ready(k - 2)
fn d1io(r: usize) -> futures::Poll<usize, std::io::Error> {
    match r {
        0 => Ok(futures::Async::NotReady),
        1 => Err(std::io::Error::from_raw_os_error(5)),
        r => Ok(futures::Async::Ready(r - 2)),
    }
}
fn e1io(x: futures::Poll<usize, std::io::Error>) -> usize {
    match x {
        Ok(futures::Async::NotReady) => 0,
        Err(e) if e.raw_os_error() == Some(5) => 1,
        Ok(futures::Async::Ready(r)) => r + 2,
        _ => BAD,
    }
}

// ------------------------------------------------------------------ futures 0.1
impl<const I: usize> futures::Future for P<I> {
    type Item = usize;
    type Error = E;
    fn poll(&mut self) -> futures::Poll<usize, E> {
        d1(leave(enter(self, "poll", 0, 0)))
    }
}
drv!(future, s, c, [futures::Future<Item = usize, Error = E>], {
    "poll" => e1(m(&mut s).poll()),
    "poll_ref" => e1(futures::Future::poll(&mut m(&mut s))),
    "map" => e1(futures::Future::poll(&mut futures::Future::map(m(&mut s), |x| { cb(x, ()); x }))),
});
enums!(future_, future, [c], futures01::Future);
impl<const I: usize> futures::Stream for P<I> {
    type Item = usize;
    type Error = E;
    fn poll(&mut self) -> futures::Poll<Option<usize>, E> {
        d1(leave(enter(self, "poll", 0, 0))).map(|x| x.map(|r| if r == 2 { None } else { Some(r) }))
    }
}
drv!(stream, s, c, [futures::Stream<Item = usize, Error = E>], {
    "poll" => e1(m(&mut s).poll().map(|x| x.map(|r| match r { None => 2, Some(r) if r > 2 => r, _ => 0 }))),
    "map" => { let mut q = futures::Stream::map(m(&mut s), |x| { cb(x, ()); x }); e1(futures::Stream::poll(&mut q).map(|x| x.map(|r| r.unwrap_or(2)))) },
});
enums!(stream_, stream, [c], futures01::Stream);
impl<const I: usize> futures::Sink for P<I> {
    type SinkItem = usize;
    type SinkError = E;
    fn start_send(&mut self, item: usize) -> futures::StartSend<usize, E> {
        match leave(enter(self, "start_send", item, 0)) {
            0 => Ok(futures::AsyncSink::NotReady(item)),
            1 => Err(E(5)),
            _ => Ok(futures::AsyncSink::Ready),
        }
    }
    fn poll_complete(&mut self) -> futures::Poll<(), E> {
        d1u(leave(enter(self, "poll_complete", 0, 0)))
    }
    fn close(&mut self) -> futures::Poll<(), E> {
        d1u(leave(enter(self, "close", 0, 0)))
    }
}
drv!(sink, s, c, [futures::Sink<SinkItem = usize, SinkError = E>], {
    "start_send" => match m(&mut s).start_send(c.a) {
        Ok(futures::AsyncSink::NotReady(a)) if a == c.a => 0,
        Err(E(5)) => 1,
        Ok(futures::AsyncSink::Ready) => c.r,
        _ => BAD,
    },
    "poll_complete" => e1u(m(&mut s).poll_complete(), c.r),
    "close" => e1u(m(&mut s).close(), c.r),
    "send" => match futures::Future::poll(&mut futures::Sink::send(m(&mut s), c.a)) { Ok(futures::Async::NotReady) => 0, Err(E(5)) => 1, Ok(_) => 2, _ => BAD },
});
enums!(sink_, sink, [c], futures01::Sink);

// ------------------------------------------------------------------ tokio 0.1
impl<const I: usize> Read for P<I> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let r = enter(self, "read", got(buf), 0);
        fill(buf, r.saturating_sub(1));
        dio(leave(r))
    }
}
impl<const I: usize> tokio::io::AsyncRead for P<I> {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [u8]) -> bool {
        leave(enter(self, "prepare_uninitialized_buffer", got(buf), 0).min(1)) > 0
    }
    fn poll_read(&mut self, buf: &mut [u8]) -> futures::Poll<usize, std::io::Error> {
        let r = enter(self, "poll_read", got(buf), 0);
        fill(buf, r.saturating_sub(2));
        d1io(leave(r))
    }
}
drv!(async_read, s, c, [tokio::io::AsyncRead], {
    "prepare_uninitialized_buffer" => { let mut b = [0u8; 8]; give(&b); unsafe { m(&mut s).prepare_uninitialized_buffer(&mut b[..c.a]) as usize } },
    "poll_read" => rbuf2(c, c.a, |b| e1io(m(&mut s).poll_read(b))),
    "read" => { let mut b = [0u8; 8]; give(&b); let x = eio(m(&mut s).read(&mut b[..c.a])); if filled(&b[..c.a], c.r.saturating_sub(1)) { x } else { BAD } },
});
enums!(async_read_, async_read, [c m], tokio01::AsyncRead, Read);
impl<const I: usize> Write for P<I> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        dio(leave(enter(self, "write", got(buf), 0)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        dio0(leave(enter(self, "flush", 0, 0)))
    }
}
impl<const I: usize> tokio::io::AsyncWrite for P<I> {
    fn poll_write(&mut self, buf: &[u8]) -> futures::Poll<usize, std::io::Error> {
        d1io(leave(enter(self, "poll_write", got(buf), 0)))
    }
    fn poll_flush(&mut self) -> futures::Poll<(), std::io::Error> {
        d1io(leave(enter(self, "poll_flush", 0, 0))).map(|x| x.map(|_| ()))
    }
    fn shutdown(&mut self) -> futures::Poll<(), std::io::Error> {
        d1io(leave(enter(self, "shutdown", 0, 0))).map(|x| x.map(|_| ()))
    }
}
drv!(async_write, s, c, [tokio::io::AsyncWrite], {
    "poll_write" => e1io(m(&mut s).poll_write(wbuf(c.a))),
    "poll_flush" => e1io(m(&mut s).poll_flush().map(|x| x.map(|_| c.r.saturating_sub(2)))),
    "shutdown" => e1io(m(&mut s).shutdown().map(|x| x.map(|_| c.r.saturating_sub(2)))),
    "write" => eio(m(&mut s).write(wbuf(c.a))),
    "flush" => eio0(m(&mut s).flush(), c.r),
});
enums!(async_write_, async_write, [c m], tokio01::AsyncWrite, Write);

// ------------------------------------------------------------------ rayon
mod ray {
    use super::*;
    use rayon::iter::plumbing::*;
    use rayon::iter::*;
    // the caller's consumer: counts what it is given
    pub struct Cs(pub usize);
    pub struct Fd(usize, bool);
    pub struct Rd;
    impl Consumer<usize> for Cs {
        type Folder = Fd;
        type Reducer = Rd;
        type Result = usize;
        fn split_at(self, _: usize) -> (Cs, Cs, Rd) {
            (Cs(BAD), Cs(BAD), Rd)
        }
        fn into_folder(self) -> Fd {
            Fd(self.0, false)
        }
        fn full(&self) -> bool {
            false
        }
    }
    impl UnindexedConsumer<usize> for Cs {
        fn split_off_left(&self) -> Cs {
            Cs(BAD)
        }
        fn to_reducer(&self) -> Rd {
            Rd
        }
    }
    impl Folder<usize> for Fd {
        type Result = usize;
        fn consume(self, y: usize) -> Fd {
            cb(y, ());
            Fd(self.0 + 1, false)
        }
        fn complete(self) -> usize {
            self.0
        }
        fn full(&self) -> bool {
            self.1
        }
    }
    impl Reducer<usize> for Rd {
        fn reduce(self, a: usize, b: usize) -> usize {
            BAD + a + b
        }
    }
    fn feed<T, C: Consumer<T>>(c: C, r: usize, item: fn(usize) -> T) -> C::Result {
        let mut f = c.into_folder();
        for y in 1..=r {
            log(format!(r#"["ask",{y}]"#));
            f = f.consume(item(y));
            log(r#"["seen",0]"#.into());
        }
        let x = f.complete();
        leave(r);
        x
    }
    pub struct Pr(pub usize);
    impl Producer for Pr {
        type Item = usize;
        type IntoIter = std::ops::Range<usize>;
        fn into_iter(self) -> std::ops::Range<usize> {
            0..self.0
        }
        fn split_at(self, _: usize) -> (Pr, Pr) {
            (Pr(BAD), Pr(BAD))
        }
    }
    pub struct Cb;
    impl ProducerCallback<usize> for Cb {
        type Output = usize;
        fn callback<Q: Producer<Item = usize>>(self, p: Q) -> usize {
            let n = p.into_iter().count();
            cb(n, ());
            n
        }
    }
    impl<const I: usize> ParallelIterator for P<I> {
        type Item = usize;
        fn drive_unindexed<C: UnindexedConsumer<usize>>(self, c: C) -> C::Result {
            let r = enter_own(&self, "drive_unindexed", c.full() as usize, 0);
            feed(c, r, |y| y)
        }
        fn opt_len(&self) -> Option<usize> {
            dopt(leave(enter(self, "opt_len", 0, 0)))
        }
    }
    impl<const I: usize> IndexedParallelIterator for P<I> {
        fn drive<C: Consumer<usize>>(self, c: C) -> C::Result {
            let r = enter_own(&self, "drive", c.full() as usize, 0);
            feed(c, r, |y| y)
        }
        fn len(&self) -> usize {
            leave(enter(self, "len", 0, 0))
        }
        fn with_producer<CB: ProducerCallback<usize>>(self, c: CB) -> CB::Output {
            let r = enter_own(&self, "with_producer", 0, 0);
            log(format!(r#"["ask",{r}]"#));
            let x = c.callback(Pr(r));
            log(r#"["seen",0]"#.into());
            leave(r);
            x
        }
    }
    drv!(par, s, c, [ParallelIterator<Item = usize>], {
        "drive_unindexed" => o(&mut s).drive_unindexed(Cs(0)),
        "opt_len" => eopt(m(&mut s).opt_len()),
        "for_each" => { o(&mut s).for_each(|y| { cb(y, ()); }); 0 },
        "sum" => o(&mut s).sum::<usize>(),
        "map_count" => o(&mut s).map(|y| { cb(y, ()); y }).count(),
        "collect" => o(&mut s).filter(|y| cb(*y, *y > 1)).collect::<Vec<usize>>().len(),
    });
    enums!(par_, par, [c], rayon::ParallelIterator);
    drv!(ind, s, c, [IndexedParallelIterator<Item = usize>], {
        "drive" => o(&mut s).drive(Cs(0)),
        "len" => m(&mut s).len(),
        "with_producer" => o(&mut s).with_producer(Cb),
        "opt_len" => eopt(m(&mut s).opt_len()),
        "drive_unindexed" => o(&mut s).drive_unindexed(Cs(0)),
        "enumerate" => o(&mut s).enumerate().with_producer(Cb2),
        "rev" => o(&mut s).rev().len(),
    });
    struct Cb2;
    impl ProducerCallback<(usize, usize)> for Cb2 {
        type Output = usize;
        fn callback<Q: Producer<Item = (usize, usize)>>(self, p: Q) -> usize {
            let n = p.into_iter().count();
            cb(n, ());
            n
        }
    }
    enums!(ind_, ind, [], rayon::IndexedParallelIterator, rayon::ParallelIterator);
    impl<const I: usize> ParallelExtend<usize> for P<I> {
        fn par_extend<T: IntoParallelIterator<Item = usize>>(&mut self, it: T) {
            let n = it.into_par_iter().opt_len().unwrap_or(BAD);
            leave(enter(self, "par_extend", n, 0));
        }
    }
    drv!(ext, s, c, [ParallelExtend<usize>], {
        "par_extend" => { m(&mut s).par_extend(rayon::iter::repeat_n(7usize, c.a)); c.r },
    });
    enums!(ext_, ext, [], rayon::ParallelExtend);
}

// ------------------------------------------------------------------ serde
mod ser {
    use super::*;
    use serde::ser::*;
    // a serializer with an identity
    pub struct Ser(bool);
    impl serde::ser::Error for E {
        fn custom<T: std::fmt::Display>(_: T) -> E {
            E(5)
        }
    }
    macro_rules! no { ($($n:ident $t:ty),*) => { $(fn $n(self, _: $t) -> Result<usize, E> { Ok(BAD) })* } }
    type Im = Impossible<usize, E>;
    impl Serializer for Ser {
        type Ok = usize;
        type Error = E;
        type SerializeSeq = Im;
        type SerializeTuple = Im;
        type SerializeTupleStruct = Im;
        type SerializeTupleVariant = Im;
        type SerializeMap = Im;
        type SerializeStruct = Im;
        type SerializeStructVariant = Im;
        no! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
              serialize_u32 u32, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str }
        fn serialize_u64(self, x: u64) -> Result<usize, E> { Ok(x as usize) }
        fn serialize_none(self) -> Result<usize, E> { Ok(BAD) }
        fn serialize_unit(self) -> Result<usize, E> { Ok(BAD) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<usize, E> { Ok(BAD) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<usize, E> { Ok(BAD) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<usize, E> { Ok(BAD) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<usize, E> { Ok(BAD) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_tuple(self, _: usize) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_map(self, _: Option<usize>) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Im, E> { Err(E(BAD)) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> { Err(E(BAD)) }
        fn is_human_readable(&self) -> bool { self.0 }
    }
    impl<const I: usize> Serialize for P<I> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match leave(enter(self, "serialize", s.is_human_readable() as usize, 0)) {
                0 => Err(S::Error::custom("no")),
                r => s.serialize_u64(r as u64),
            }
        }
    }
    drv!(ser, s, c, [Serialize], {
        "serialize" => match m(&mut s).serialize(Ser(c.a == 1)) { Ok(r) => r, Err(E(5)) => 0, _ => BAD },
        "serialize_ref" => match (&m(&mut s)).serialize(Ser(c.a == 1)) { Ok(r) => r, Err(E(5)) => 0, _ => BAD },
    });
    enums!(ser_, ser, [c m], serde::Serialize);
}

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "futures01::Future" => future_::run(s, n, v, tw, c),
        "futures01::Stream" => stream_::run(s, n, v, tw, c),
        "futures01::Sink" => sink_::run(s, n, v, tw, c),
        "tokio01::AsyncRead" => async_read_::run(s, n, v, tw, c),
        "tokio01::AsyncWrite" => async_write_::run(s, n, v, tw, c),
        "rayon::ParallelIterator" => ray::par_::run(s, n, v, tw, c),
        "rayon::IndexedParallelIterator" => ray::ind_::run(s, n, v, tw, c),
        "rayon::ParallelExtend" => ray::ext_::run(s, n, v, tw, c),
        "serde::Serialize" => ser::ser_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
