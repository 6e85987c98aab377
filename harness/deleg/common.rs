// Probes, event log and driver of the delegation checks.
// A history is a sequence of calls on an enum (or on the bare value: the "twin"); the value held by
// the enum is a probe that records each call it receives and replies as scripted.
use std::marker::PhantomPinned;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

pub static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static REPLY: AtomicUsize = AtomicUsize::new(0);
pub static K: AtomicUsize = AtomicUsize::new(0);
pub static BASE: AtomicUsize = AtomicUsize::new(0);
pub static SIZE: AtomicUsize = AtomicUsize::new(0);
pub static BUF: AtomicUsize = AtomicUsize::new(0);
pub const BAD: usize = 99;

pub fn log(s: String) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}

pub struct P<const I: usize> {
    pub id: usize,
    pub pad: [u16; I],
    pub pin: PhantomPinned,
}
// Concrete fields of an enum that derives a pinned trait have to be Unpin.
impl Unpin for P<2> {}
impl Unpin for P<3> {}
impl<const I: usize> P<I> {
    pub fn new(id: usize) -> Self {
        P { id, pad: [id as u16; I], pin: PhantomPinned }
    }
    pub fn ok(&self) -> bool {
        self.pad.iter().all(|x| *x == self.id as u16)
    }
}

/// The probe is entered through a reference: records the place as well.
pub fn enter<const I: usize>(p: &P<I>, m: &str, a: usize, x: usize) -> usize {
    let o = (p as *const P<I> as usize).wrapping_sub(BASE.load(SeqCst));
    let o = if o < SIZE.load(SeqCst) { o as i64 } else { -1 };
    entered(p, m, a, x, o)
}
/// The probe is entered by value.
pub fn enter_own<const I: usize>(p: &P<I>, m: &str, a: usize, x: usize) -> usize {
    entered(p, m, a, x, -2)
}
fn entered<const I: usize>(p: &P<I>, m: &str, a: usize, x: usize, o: i64) -> usize {
    let v = if p.ok() { p.id } else { BAD };
    log(format!(r#"["enter",{v},"{m}",{a},{x},{o}]"#));
    let k = K.fetch_add(1, SeqCst);
    REPLY.load(SeqCst).saturating_sub(k)
}
pub fn leave(r: usize) -> usize {
    log(format!(r#"["leave",{r}]"#));
    r
}
/// The probe calls the caller's callback with `y`.
pub fn ask<R: Code>(y: usize, f: impl FnOnce() -> R) -> R {
    log(format!(r#"["ask",{y}]"#));
    let r = f();
    log(format!(r#"["seen",{}]"#, r.code()));
    r
}
/// The caller's callback.
pub fn cb<R: Code>(y: usize, r: R) -> R {
    log(format!(r#"["cb",{y}]"#));
    log(format!(r#"["cbr",{}]"#, r.code()));
    r
}

pub trait Code {
    fn code(&self) -> usize;
}
impl Code for usize {
    fn code(&self) -> usize {
        *self
    }
}
impl Code for bool {
    fn code(&self) -> usize {
        *self as usize
    }
}
impl Code for () {
    fn code(&self) -> usize {
        0
    }
}
impl Code for Option<usize> {
    fn code(&self) -> usize {
        match self {
            None => 0,
            Some(x) => x + 1,
        }
    }
}

#[derive(Clone)]
pub struct Call {
    pub m: String,
    pub a: usize,
    pub r: usize,
    pub x: usize,
}
pub fn begin(c: &Call) {
    log(format!(r#"["call","{}",{},{}]"#, c.m, c.a, c.x));
    REPLY.store(c.r, SeqCst);
    K.store(0, SeqCst);
}
pub fn end(r: usize) {
    log(format!(r#"["ret",{r}]"#));
}
pub fn place<X>(x: &X) {
    BASE.store(x as *const X as usize, SeqCst);
    SIZE.store(std::mem::size_of::<X>(), SeqCst);
}

// option of an item: 0 None, k Some(k)
pub fn dopt(r: usize) -> Option<usize> {
    if r == 0 { None } else { Some(r) }
}
pub fn eopt(x: Option<usize>) -> usize {
    match x {
        None => 0,
        Some(0) => BAD,
        Some(k) => k,
    }
}
pub fn dres(r: usize) -> Result<usize, E> {
    if r == 0 { Err(E(5)) } else { Ok(r) }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct E(pub usize);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E")
    }
}
impl std::error::Error for E {}
// io result of a size: 0 Err(os error 5), k Ok(k - 1)
pub fn dio(r: usize) -> std::io::Result<usize> {
    if r == 0 { Err(std::io::Error::from_raw_os_error(5)) } else { Ok(r - 1) }
}
pub fn eio(x: std::io::Result<usize>) -> usize {
    match x {
        Ok(n) => n + 1,
        Err(e) if e.raw_os_error() == Some(5) => 0,
        Err(_) => BAD,
    }
}
pub fn dio0(r: usize) -> std::io::Result<()> {
    dio(r).map(|_| ())
}
pub fn eio0(x: std::io::Result<()>, r: usize) -> usize {
    match eio(x.map(|()| 0)) {
        1 => r,
        x => x,
    }
}
// places of referenced data
pub static CELLS: [Tok; 6] = [Tok(0), Tok(1), Tok(2), Tok(3), Tok(4), Tok(5)];
#[derive(Debug, PartialEq, PartialOrd)]
pub struct Tok(pub usize);
pub fn etok(x: &Tok) -> usize {
    CELLS.iter().position(|c| std::ptr::eq(c, x)).unwrap_or(BAD)
}
static mut MUTS: [Tok; 6] = [Tok(0), Tok(1), Tok(2), Tok(3), Tok(4), Tok(5)];
pub fn dmut(r: usize) -> &'static mut Tok {
    unsafe { &mut *(&raw mut MUTS as *mut Tok).add(r) }
}
pub fn emut(x: &mut Tok) -> usize {
    let b = &raw mut MUTS as *mut Tok;
    (0..6).find(|i| unsafe { b.add(*i) } == x as *mut Tok).unwrap_or(BAD)
}
pub static BYTES: [u8; 8] = *b"abcdefgh";
pub fn dbytes(r: usize) -> &'static [u8] {
    &BYTES[..r]
}
pub fn ebytes(x: &[u8]) -> usize {
    if x.is_empty() || std::ptr::eq(x.as_ptr(), BYTES.as_ptr()) { x.len() } else { BAD }
}

// buffers handed to the probe: the code is the length, if it is the caller's buffer
pub fn give(buf: &[u8]) {
    BUF.store(buf.as_ptr() as usize, SeqCst);
}
pub fn got(buf: &[u8]) -> usize {
    if buf.as_ptr() as usize == BUF.load(SeqCst) { buf.len() } else { BAD }
}
pub fn fill(buf: &mut [u8], n: usize) {
    for (i, b) in buf.iter_mut().enumerate() {
        *b = if i < n { 1 + i as u8 } else { *b };
    }
}
pub fn filled(buf: &[u8], n: usize) -> bool {
    buf.iter().enumerate().all(|(i, b)| *b == if i < n { 1 + i as u8 } else { 0 })
}

// wakers with an identity
fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn vt_nop(_: *const ()) {}
// the held value never wakes its task, so nobody else does
fn vt_wake(p: *const ()) {
    log(format!(r#"["wake",{}]"#, p as usize));
}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_nop);
pub fn waker(id: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VT)) }
}
pub fn wid(cx: &Context<'_>) -> usize {
    cx.waker().data() as usize
}

pub fn m<X>(s: &mut Box<Option<X>>) -> &mut X {
    (**s).as_mut().unwrap()
}
pub fn o<X>(s: &mut Box<Option<X>>) -> X {
    (**s).take().unwrap()
}

/// Declares the driver of one trait: how each method is called and its result encoded.
#[macro_export]
macro_rules! drv {
    ($f:ident, $s:ident, $c:ident, [$($b:tt)*], { $($m:literal => $e:expr),* $(,)? }) => {
        pub fn $f<X: $($b)*>(x: X, calls: &[Call]) {
            let mut $s = Box::new(Some(x));
            place(&*$s);
            for $c in calls {
                begin($c);
                #[allow(unused_mut)]
                let r: usize = match &*$c.m { $($m => $e,)* m => panic!("no method {m}") };
                end(r);
                if $s.is_none() { break }
            }
        }
    };
    (pin $f:ident, $s:ident, $c:ident, $cx:ident, [$($b:tt)*], { $($m:literal => $e:expr),* $(,)? }) => {
        pub fn $f<X: $($b)*>(x: X, calls: &[Call]) {
            let mut $s = Box::pin(x);
            place(&*$s);
            for $c in calls {
                begin($c);
                let w = waker($c.x);
                #[allow(unused)]
                let $cx = &mut Context::from_waker(&w);
                let r: usize = match &*$c.m { $($m => $e,)* m => panic!("no method {m}") };
                end(r);
            }
        }
    };
}

/// Declares the enums that derive `$tr` and the function that runs one history on the alternative
/// asked for (`twin`: on the bare value).  Shapes: g generic fields, r repeated generic field,
/// w many alternatives of two generic parameters,
/// c concrete fields, m generic and concrete fields (not every trait supports these two).
#[macro_export]
macro_rules! enums {
    (@decl c $($tr:tt)*) => { #[auto_enums::enum_derive($($tr)*)] pub enum E2c { X(P<3>), Y(P<3>) } };
    (@decl m $($tr:tt)*) => { #[auto_enums::enum_derive($($tr)*)] pub enum E3m<T> { X(T), Y(P<2>), Z(T) } };
    (@run c $f:path, $v:expr, $c:expr) => {
        match $v { 1 => $f(E2c::X(P::new(1)), $c), _ => $f(E2c::Y(P::new(2)), $c) }
    };
    (@run m $f:path, $v:expr, $c:expr) => {
        match $v { 1 => $f(E3m::X(P::<5>::new(1)), $c), 2 => $f(E3m::<P<5>>::Y(P::<2>::new(2)), $c), _ => $f(E3m::Z(P::<5>::new(3)), $c) }
    };
    ($md:ident, $f:path, [$($s:ident)*], $($tr:tt)*) => {
        pub mod $md {
            use super::*;
            #[allow(unused_imports)]
            use crate::*;
            #[auto_enums::enum_derive($($tr)*)] pub enum E1<A> { A(A) }
            #[auto_enums::enum_derive($($tr)*)] pub enum E2<A, B> { A(A), B(B) }
            #[auto_enums::enum_derive($($tr)*)] pub enum E3<A, B, C> { A(A), B(B), C(C) }
            #[auto_enums::enum_derive($($tr)*)] pub enum E4<A, B, C, D> { A(A), B(B), C(C), D(D) }
            #[auto_enums::enum_derive($($tr)*)] pub enum E3r<T> { X(T), Y(T), Z(T) }
            #[auto_enums::enum_derive($($tr)*)] pub enum E17<A, B> {
                V1(A), V2(B), V3(A), V4(B), V5(A), V6(B), V7(A), V8(B), V9(A), V10(B), V11(A), V12(B), V13(A), V14(B), V15(A), V16(B), V17(A),
            }
            enums!(@each { $($tr)* } $($s)*);
            pub fn run(shape: &str, n: usize, v: usize, twin: bool, c: &[Call]) {
                match (shape, n, v, twin) {
                    ("g", _, 1, true) => $f(P::<1>::new(1), c),
                    ("g", _, 2, true) => $f(P::<4>::new(2), c),
                    ("g", _, 3, true) => $f(P::<2>::new(3), c),
                    ("g", _, 4, true) => $f(P::<7>::new(4), c),
                    ("g", 1, 1, _) => $f(E1::A(P::<1>::new(1)), c),
                    ("g", 2, 1, _) => $f(E2::<_, P<4>>::A(P::<1>::new(1)), c),
                    ("g", 2, 2, _) => $f(E2::<P<1>, _>::B(P::<4>::new(2)), c),
                    ("g", 3, 1, _) => $f(E3::<_, P<4>, P<2>>::A(P::<1>::new(1)), c),
                    ("g", 3, 2, _) => $f(E3::<P<1>, _, P<2>>::B(P::<4>::new(2)), c),
                    ("g", 3, 3, _) => $f(E3::<P<1>, P<4>, _>::C(P::<2>::new(3)), c),
                    ("g", 4, 1, _) => $f(E4::<_, P<4>, P<2>, P<7>>::A(P::<1>::new(1)), c),
                    ("g", 4, 2, _) => $f(E4::<P<1>, _, P<2>, P<7>>::B(P::<4>::new(2)), c),
                    ("g", 4, 3, _) => $f(E4::<P<1>, P<4>, _, P<7>>::C(P::<2>::new(3)), c),
                    ("g", 4, 4, _) => $f(E4::<P<1>, P<4>, P<2>, _>::D(P::<7>::new(4)), c),
                    ("r", 3, _, true) => $f(P::<5>::new(v), c),
                    ("r", 3, 1, _) => $f(E3r::X(P::<5>::new(1)), c),
                    ("r", 3, 2, _) => $f(E3r::Y(P::<5>::new(2)), c),
                    ("r", 3, 3, _) => $f(E3r::Z(P::<5>::new(3)), c),
                    ("w", 17, _, true) => $f(P::<5>::new(v), c),
                    ("w", 17, 9, _) => $f(E17::<_, P<4>>::V9(P::<5>::new(9)), c),
                    ("w", 17, 11, _) => $f(E17::<_, P<4>>::V11(P::<5>::new(11)), c),
                    ("w", 17, 17, _) => $f(E17::<_, P<4>>::V17(P::<5>::new(17)), c),
                    ("c", 2, _, true) => $f(P::<3>::new(v), c),
                    ("m", 3, 2, true) => $f(P::<2>::new(2), c),
                    ("m", 3, _, true) => $f(P::<5>::new(v), c),
                    $((stringify!($s), _, _, _) => enums!(@run $s $f, v, c),)*
                    x => panic!("no shape {x:?}"),
                }
            }
        }
    };
    (@each { $($tr:tt)* } ) => {};
    (@each { $($tr:tt)* } $s:ident $($r:ident)*) => { enums!(@decl $s $($tr)*); enums!(@each { $($tr)* } $($r)*); };
}

/// stdin: one history per line: id TAB trait TAB shape TAB n TAB v TAB m,a,r,x;m,a,r,x...
/// stdout: one JSON trace per line.
pub fn main_loop(f: fn(&str, &str, usize, usize, bool, &[Call])) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() != 6 {
            continue;
        }
        let (n, v) = (p[3].parse().unwrap(), p[4].parse().unwrap());
        let calls: Vec<Call> = p[5]
            .split(';')
            .map(|c| {
                let q: Vec<&str> = c.split(',').collect();
                Call { m: q[0].into(), a: q[1].parse().unwrap(), r: q[2].parse().unwrap(), x: q[3].parse().unwrap() }
            })
            .collect();
        let go = |twin| {
            LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
            let r = std::panic::catch_unwind(|| f(p[1], p[2], n, v, twin, &calls));
            if let Err(e) = r {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                log(format!("[\"panic\",{:?}]", s.unwrap_or_default()));
            }
            std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner())).join(",")
        };
        let a = go(false);
        let b = go(true);
        writeln!(out, r#"{{"id":{},"t":"{}","s":"{}","n":{n},"v":{v},"ev":[{a}],"tw":[{b}]}}"#, p[0], p[1], p[2]).unwrap();
        out.flush().unwrap();
    }
}
