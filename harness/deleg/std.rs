#![feature(fn_traits, unboxed_closures, coroutine_trait)]
#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs, deprecated)]
#[macro_use]
mod common;
pub use common::*;
use std::fmt::{self, Write as _};
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use std::ops::*;
use std::pin::Pin;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ iterators
impl<const I: usize> Iterator for P<I> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        dopt(leave(enter(self, "next", 0, 0)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let r = leave(enter(self, "size_hint", 0, 0));
        (r, if r == 0 { None } else { Some(r + 1) })
    }
    fn count(self) -> usize {
        leave(enter_own(&self, "count", 0, 0))
    }
    fn last(self) -> Option<usize> {
        dopt(leave(enter_own(&self, "last", 0, 0)))
    }
    fn nth(&mut self, n: usize) -> Option<usize> {
        dopt(leave(enter(self, "nth", n, 0)))
    }
    fn collect<B: FromIterator<usize>>(self) -> B {
        let r = leave(enter_own(&self, "collect", 0, 0));
        (0..r).collect()
    }
    fn partition<B: Default + Extend<usize>, F: FnMut(&usize) -> bool>(self, mut f: F) -> (B, B) {
        let r = enter_own(&self, "partition", 0, 0);
        let mut res = (B::default(), B::default());
        let mut code = 0;
        for y in 1..=r {
            if ask(y, || f(&y)) {
                res.0.extend(Some(y));
                code += 1;
            } else {
                res.1.extend(Some(y));
                code += 10;
            }
        }
        leave(code);
        res
    }
    fn fold<B, F: FnMut(B, usize) -> B>(self, init: B, mut f: F) -> B {
        let r = enter_own(&self, "fold", 0, 0);
        let mut acc = init;
        for y in 1..=r {
            log(format!(r#"["ask",{y}]"#));
            acc = f(acc, y);
            log(r#"["seen",0]"#.into());
        }
        leave(r);
        acc
    }
    fn all<F: FnMut(usize) -> bool>(&mut self, mut f: F) -> bool {
        let r = enter(self, "all", 0, 0);
        let mut res = true;
        for y in 1..=r {
            if !ask(y, || f(y)) {
                res = false;
                break;
            }
        }
        leave(res as usize) != 0
    }
    fn any<F: FnMut(usize) -> bool>(&mut self, mut f: F) -> bool {
        let r = enter(self, "any", 0, 0);
        let mut res = false;
        for y in 1..=r {
            if ask(y, || f(y)) {
                res = true;
                break;
            }
        }
        leave(res as usize) != 0
    }
    fn find<F: FnMut(&usize) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let r = enter(self, "find", 0, 0);
        let x = (1..=r).find(|y| ask(*y, || f(y)));
        leave(eopt(x));
        x
    }
    fn find_map<B, F: FnMut(usize) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
        let r = enter(self, "find_map", 0, 0);
        for y in 1..=r {
            log(format!(r#"["ask",{y}]"#));
            let z = f(y);
            log(format!(r#"["seen",{}]"#, z.is_some() as usize));
            if z.is_some() {
                leave(y);
                return z;
            }
        }
        leave(0);
        None
    }
    fn position<F: FnMut(usize) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let r = enter(self, "position", 0, 0);
        let x = (1..=r).find(|y| ask(*y, || f(*y)));
        leave(eopt(x));
        x
    }
}
// the caller's predicate: bit y of a
fn bit(a: usize, y: usize) -> bool {
    cb(y, (a >> y) & 1 == 1)
}
fn epart(p: (Vec<usize>, Vec<usize>)) -> usize {
    let mut all: Vec<usize> = p.0.iter().chain(&p.1).copied().collect();
    all.sort();
    if all.iter().copied().eq(1..=all.len()) { p.0.len() + 10 * p.1.len() } else { BAD }
}
fn evec(v: Vec<usize>) -> usize {
    if v.iter().copied().eq(0..v.len()) { v.len() } else { BAD }
}
fn hash(v: impl IntoIterator<Item = usize>) -> usize {
    v.into_iter().fold(7, |h, x| (h * 31 + x) % 99991)
}
drv!(iterator, s, c, [Iterator<Item = usize>], {
    "next" => eopt(m(&mut s).next()),
    "size_hint" => { let (a, b) = m(&mut s).size_hint(); if b == (if a == 0 { None } else { Some(a + 1) }) { a } else { BAD } },
    "count" => o(&mut s).count(),
    "last" => eopt(o(&mut s).last()),
    "nth" => eopt(m(&mut s).nth(c.a)),
    "collect" => evec(o(&mut s).collect::<Vec<_>>()),
    "partition" => epart(o(&mut s).partition(|y| bit(c.a, *y))),
    "fold" => o(&mut s).fold(0, |acc, y| { log(format!(r#"["cb",{y}]"#)); log(r#"["cbr",0]"#.into()); acc + 1 }),
    "all" => m(&mut s).all(|y| bit(c.a, y)) as usize,
    "any" => m(&mut s).any(|y| bit(c.a, y)) as usize,
    "find" => eopt(m(&mut s).find(|y| bit(c.a, *y))),
    "find_map" => eopt(m(&mut s).find_map(|y| if bit(c.a, y) { Some(y) } else { None })),
    "position" => eopt(m(&mut s).position(|y| bit(c.a, y))),
    "sum" => o(&mut s).sum(),
    "product" => o(&mut s).product(),
    "max" => eopt(o(&mut s).max()),
    "min_by" => eopt(o(&mut s).min_by(|a, b| b.cmp(a))),
    "for_each" => { let mut h = vec![]; o(&mut s).for_each(|y| h.push(y)); hash(h) },
    "map" => hash(o(&mut s).map(|y| y + 1).collect::<Vec<_>>()),
    "filter" => hash(o(&mut s).filter(|y| y % 2 == 1).collect::<Vec<_>>()),
    "enumerate" => hash(o(&mut s).enumerate().map(|(i, y)| i * 10 + y)),
    "chain" => hash(o(&mut s).chain(1..3)),
    "zip" => hash(o(&mut s).zip(1..3).map(|(i, y)| i * 10 + y)),
    "skip" => hash(o(&mut s).skip(c.a)),
    "take" => hash(o(&mut s).take(c.a)),
    "step_by" => hash(o(&mut s).step_by(c.a + 1)),
    "take_while" => hash(m(&mut s).take_while(|y| *y > c.a)),
    "skip_while" => hash(o(&mut s).skip_while(|y| *y > c.a)),
    "map_while" => hash(o(&mut s).map_while(|y| if y > c.a { Some(y) } else { None })),
    "scan" => hash(o(&mut s).scan(1, |a, y| { *a += y; Some(*a) })),
    "flat_map" => hash(o(&mut s).flat_map(|y| 0..y)),
    "fuse" => hash(o(&mut s).fuse()),
    "peekable" => { let mut p = o(&mut s).peekable(); p.peek(); hash(p) },
    "by_ref" => { let h = hash(m(&mut s).by_ref().take(c.a)); h },
    "try_fold" => m(&mut s).try_fold(0usize, |a, y| if y > 1 { Ok(a + y) } else { Err(a) }).unwrap_or_else(|x| x + 100),
    "try_for_each" => m(&mut s).try_for_each(|y| if y > 1 { Ok(()) } else { Err(y) }).map_or_else(|x| x, |_| 0),
    "reduce" => eopt(o(&mut s).reduce(|a, b| a * 2 + b)),
    "eq" => o(&mut s).eq(1..3) as usize,
    "cmp" => o(&mut s).cmp(0..2) as i8 as u8 as usize,
    "unzip" => { let (a, b): (Vec<usize>, Vec<usize>) = o(&mut s).map(|y| (y, y + 1)).unzip(); hash(a) + hash(b) },
    "is_sorted" => o(&mut s).is_sorted() as usize,
});
enums!(iterator_, iterator, [c], Iterator);

impl<const I: usize> DoubleEndedIterator for P<I> {
    fn next_back(&mut self) -> Option<usize> {
        dopt(leave(enter(self, "next_back", 0, 0)))
    }
    fn nth_back(&mut self, n: usize) -> Option<usize> {
        dopt(leave(enter(self, "nth_back", n, 0)))
    }
    fn rfold<B, F: FnMut(B, usize) -> B>(self, init: B, mut f: F) -> B {
        let r = enter_own(&self, "rfold", 0, 0);
        let mut acc = init;
        for y in (1..=r).rev() {
            log(format!(r#"["ask",{y}]"#));
            acc = f(acc, y);
            log(r#"["seen",0]"#.into());
        }
        leave(r);
        acc
    }
    fn rfind<F: FnMut(&usize) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let r = enter(self, "rfind", 0, 0);
        let x = (1..=r).rev().find(|y| ask(*y, || f(y)));
        leave(eopt(x));
        x
    }
}
drv!(double_ended, s, c, [DoubleEndedIterator<Item = usize>], {
    "next_back" => eopt(m(&mut s).next_back()),
    "nth_back" => eopt(m(&mut s).nth_back(c.a)),
    "rfold" => o(&mut s).rfold(0, |acc, y| { log(format!(r#"["cb",{y}]"#)); log(r#"["cbr",0]"#.into()); acc + 1 }),
    "rfind" => eopt(m(&mut s).rfind(|y| bit(c.a, *y))),
    "next" => eopt(m(&mut s).next()),
    "rev" => hash(o(&mut s).rev()),
    "rev_fold" => o(&mut s).rev().fold(0, |a, b| a * 3 + b),
    "rev_find" => eopt(o(&mut s).rev().find(|y| *y == c.a)),
    "rev_nth" => eopt(o(&mut s).rev().nth(c.a)),
    "try_rfold" => m(&mut s).try_rfold(0usize, |a, y| if y > 1 { Ok(a + y) } else { Err(a) }).unwrap_or_else(|x| x + 100),
    "map_back" => eopt(m(&mut s).map(|y| y + 1).next_back()),
    "chain_back" => eopt(o(&mut s).chain(4..5).nth_back(1)),
});
enums!(double_ended_, double_ended, [c], DoubleEndedIterator, Iterator);

impl<const I: usize> ExactSizeIterator for P<I> {
    fn len(&self) -> usize {
        leave(enter(self, "len", 0, 0))
    }
}
drv!(exact_size, s, c, [ExactSizeIterator<Item = usize> + DoubleEndedIterator], {
    "len" => m(&mut s).len(),
    "next" => eopt(m(&mut s).next()),
    "size_hint" => m(&mut s).size_hint().0,
    "enumerate_len" => m(&mut s).by_ref().enumerate().len(),
    "rposition" => eopt(m(&mut s).rposition(|y| y == c.a).map(|y| y + 1)),
    "rev_len" => m(&mut s).by_ref().rev().len(),
});
enums!(exact_size_, exact_size, [c], DoubleEndedIterator, Iterator, ExactSizeIterator);


impl<const I: usize> Extend<usize> for P<I> {
    fn extend<T: IntoIterator<Item = usize>>(&mut self, iter: T) {
        let v: Vec<usize> = iter.into_iter().collect();
        enter(self, "extend", evec(v), 0);
        leave(0);
    }
}
drv!(extend, s, c, [Extend<usize>], {
    "extend" => { m(&mut s).extend(0..c.a); 0 },
    "extend_opt" => { m(&mut s).extend(if c.a == 0 { None } else { Some(0) }); 0 },
});
enums!(extend_, extend, [], Extend);

// ------------------------------------------------------------------ fmt
macro_rules! fmt_trait {
    ($Tr:ident, $f:ident, $md:ident, $name:literal, $p0:literal, $p1:literal, $p2:literal, $p3:literal, $($d:tt)*) => {
        impl<const I: usize> fmt::$Tr for P<I> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let a = match (f.alternate(), f.sign_plus(), f.sign_aware_zero_pad(), f.width(), f.precision(), f.fill(), f.align().is_some()) {
                    (false, false, false, None, None, ' ', false) => 0,
                    (true, false, false, None, None, ' ', false) => 1,
                    (false, true, true, Some(8), Some(3), ' ', false) => 2,
                    (false, false, false, Some(5), None, '*', true) => 3,
                    _ => BAD,
                };
                let r = enter(self, $name, a, 0);
                let w = f.write_str(&"ab"[..r.min(2)]);
                let w = if w.is_err() { 9 } else { 0 };
                leave(r + w);
                if r == 0 || w > 0 { Err(fmt::Error) } else { Ok(()) }
            }
        }
        drv!($f, s, c, [fmt::$Tr], {
            $name => {
                let mut t = Lim(String::new(), 100);
                let x = m(&mut s);
                let res = match c.a { 0 => write!(t, $p0, x), 1 => write!(t, $p1, x), 2 => write!(t, $p2, x), _ => write!(t, $p3, x) };
                match (res, &*t.0) { (Err(_), "") => 0, (Ok(()), "a") => 1, (Ok(()), "ab") => 2, _ => BAD }
            },
            // the sink fails
            "fail" => {
                let mut t = Lim(String::new(), 0);
                write!(t, $p0, m(&mut s)).is_err() as usize
            },
            "to_string" => format_args!($p0, m(&mut s)).to_string().len(),
        });
        enums!($md, $f, [c m], $($d)*);
    };
}
pub struct Lim(String, usize);
impl fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(fmt::Error) }
        self.0.push_str(s);
        Ok(())
    }
}
fmt_trait!(Debug, debug, debug_, "fmt_debug", "{:?}", "{:#?}", "{:+08.3?}", "{:*^5?}", Debug);
fmt_trait!(Display, display, display_, "fmt_display", "{}", "{:#}", "{:+08.3}", "{:*^5}", fmt::Display);
fmt_trait!(Binary, binary, binary_, "fmt_binary", "{:b}", "{:#b}", "{:+08.3b}", "{:*^5b}", fmt::Binary);
fmt_trait!(LowerExp, lower_exp, lower_exp_, "fmt_lower_exp", "{:e}", "{:#e}", "{:+08.3e}", "{:*^5e}", fmt::LowerExp);
fmt_trait!(LowerHex, lower_hex, lower_hex_, "fmt_lower_hex", "{:x}", "{:#x}", "{:+08.3x}", "{:*^5x}", fmt::LowerHex);
fmt_trait!(Octal, octal, octal_, "fmt_octal", "{:o}", "{:#o}", "{:+08.3o}", "{:*^5o}", fmt::Octal);
fmt_trait!(UpperExp, upper_exp, upper_exp_, "fmt_upper_exp", "{:E}", "{:#E}", "{:+08.3E}", "{:*^5E}", fmt::UpperExp);
fmt_trait!(UpperHex, upper_hex, upper_hex_, "fmt_upper_hex", "{:X}", "{:#X}", "{:+08.3X}", "{:*^5X}", fmt::UpperHex);
// `{:p}` of the value itself goes through the trait by hand: the format macros take references
pub struct Pt<'a, X>(&'a X);
impl<const I: usize> fmt::Pointer for P<I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let a = match (f.alternate(), f.sign_plus(), f.width(), f.precision()) {
            (false, false, None, None) => 0,
            (true, false, None, None) => 1,
            (false, true, Some(8), Some(3)) => 2,
            (false, false, Some(5), None) => 3,
            _ => BAD,
        };
        let r = enter(self, "fmt_pointer", a, 0);
        let w = f.write_str(&"ab"[..r.min(2)]);
        leave(r);
        if r == 0 { Err(fmt::Error) } else { w }
    }
}
impl<X: fmt::Pointer> fmt::Display for Pt<'_, X> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(self.0, f)
    }
}
drv!(pointer, s, c, [fmt::Pointer], {
    "fmt_pointer" => {
        let mut t = Lim(String::new(), 100);
        let x = Pt(m(&mut s));
        let res = match c.a { 0 => write!(t, "{}", x), 1 => write!(t, "{:#}", x), 2 => write!(t, "{:+08.3}", x), _ => write!(t, "{:*^5}", x) };
        match (res, &*t.0) { (Err(_), "") => 0, (Ok(()), "a") => 1, (Ok(()), "ab") => 2, _ => BAD }
    },
});
enums!(pointer_, pointer, [c m], fmt::Pointer);

impl<const I: usize> fmt::Write for P<I> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        fres(leave(enter(self, "write_str", got(s.as_bytes()), 0)))
    }
    fn write_char(&mut self, ch: char) -> fmt::Result {
        fres(leave(enter(self, "write_char", ch as usize - 'a' as usize, 0)))
    }
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> fmt::Result {
        fres(leave(enter(self, "write_fmt", args.to_string().len(), 0)))
    }
}
fn fres(r: usize) -> fmt::Result {
    if r == 0 { Err(fmt::Error) } else { Ok(()) }
}
fn gives(a: usize) -> &'static str {
    let s = &"aaaaaaaa"[..a];
    give(s.as_bytes());
    s
}
drv!(fmt_write, s, c, [fmt::Write], {
    "write_str" => if m(&mut s).write_str(gives(c.a)).is_ok() { c.r } else { 0 },
    "write_char" => if m(&mut s).write_char((b'a' + c.a as u8) as char).is_ok() { c.r } else { 0 },
    "write_fmt" => if write!(m(&mut s), "{}", gives(c.a)).is_ok() { c.r } else { 0 },
    "by_ref" => { let mut w = m(&mut s); if write!(&mut w, "{}{}", gives(c.a), 1).is_ok() { c.r } else { 0 } },
});
enums!(fmt_write_, fmt_write, [c m], fmt::Write);

// ------------------------------------------------------------------ ops, convert
impl<const I: usize> Deref for P<I> {
    type Target = Tok;
    fn deref(&self) -> &Tok {
        &CELLS[leave(enter(self, "deref", 0, 0))]
    }
}
impl<const I: usize> DerefMut for P<I> {
    fn deref_mut(&mut self) -> &mut Tok {
        dmut(leave(enter(self, "deref_mut", 0, 0)))
    }
}
drv!(deref, s, c, [Deref<Target = Tok>], { "deref" => etok(&**m(&mut s)) });
enums!(deref_, deref, [c], Deref);
drv!(deref_mut, s, c, [DerefMut<Target = Tok>], {
    "deref" => etok(m(&mut s).deref()),
    "deref_mut" => emut(m(&mut s).deref_mut()),
});
enums!(deref_mut_, deref_mut, [c], DerefMut);
impl<const I: usize> Index<usize> for P<I> {
    type Output = Tok;
    fn index(&self, i: usize) -> &Tok {
        &CELLS[leave(enter(self, "index", i, 0))]
    }
}
impl<const I: usize> IndexMut<usize> for P<I> {
    fn index_mut(&mut self, i: usize) -> &mut Tok {
        dmut(leave(enter(self, "index_mut", i, 0)))
    }
}
drv!(index, s, c, [Index<usize, Output = Tok>], { "index" => etok(&m(&mut s)[c.a]) });
enums!(index_, index, [], Index);
drv!(index_mut, s, c, [IndexMut<usize, Output = Tok>], {
    "index" => etok(m(&mut s).index(c.a)),
    "index_mut" => emut(&mut m(&mut s)[c.a]),
});
enums!(index_mut_, index_mut, [], IndexMut);
impl<const I: usize> RangeBounds<Tok> for P<I> {
    fn start_bound(&self) -> Bound<&Tok> {
        dbound(leave(enter(self, "start_bound", 0, 0)))
    }
    fn end_bound(&self) -> Bound<&Tok> {
        dbound(leave(enter(self, "end_bound", 0, 0)))
    }
}
fn dbound(r: usize) -> Bound<&'static Tok> {
    match r {
        0 => Bound::Unbounded,
        r if r % 2 == 1 => Bound::Included(&CELLS[r]),
        r => Bound::Excluded(&CELLS[r]),
    }
}
fn ebound(b: Bound<&Tok>) -> usize {
    match b {
        Bound::Unbounded => 0,
        Bound::Included(x) if etok(x) % 2 == 1 => etok(x),
        Bound::Excluded(x) if etok(x) % 2 == 0 => etok(x),
        _ => BAD,
    }
}
drv!(range_bounds, s, c, [RangeBounds<Tok>], {
    "start_bound" => ebound(m(&mut s).start_bound()),
    "end_bound" => ebound(m(&mut s).end_bound()),
    "contains" => m(&mut s).contains(&Tok(c.a)) as usize,
});
enums!(range_bounds_, range_bounds, [], RangeBounds);
impl<const I: usize> AsRef<Tok> for P<I> {
    fn as_ref(&self) -> &Tok {
        &CELLS[leave(enter(self, "as_ref", 0, 0))]
    }
}
impl<const I: usize> AsMut<Tok> for P<I> {
    fn as_mut(&mut self) -> &mut Tok {
        dmut(leave(enter(self, "as_mut", 0, 0)))
    }
}
drv!(as_ref, s, c, [AsRef<Tok>], { "as_ref" => etok(m(&mut s).as_ref()), "ref_as_ref" => etok((&&*m(&mut s)).as_ref()) });
enums!(as_ref_, as_ref, [], AsRef);
drv!(as_mut, s, c, [AsMut<Tok>], { "as_mut" => emut(m(&mut s).as_mut()) });
enums!(as_mut_, as_mut, [], AsMut);

impl<const I: usize> FnOnce<(usize,)> for P<I> {
    type Output = usize;
    extern "rust-call" fn call_once(self, args: (usize,)) -> usize {
        leave(enter_own(&self, "call_once", args.0, 0))
    }
}
impl<const I: usize> FnMut<(usize,)> for P<I> {
    extern "rust-call" fn call_mut(&mut self, args: (usize,)) -> usize {
        leave(enter(self, "call_mut", args.0, 0))
    }
}
impl<const I: usize> Fn<(usize,)> for P<I> {
    extern "rust-call" fn call(&self, args: (usize,)) -> usize {
        leave(enter(self, "call", args.0, 0))
    }
}
fn once(f: impl FnOnce(usize) -> usize, a: usize) -> usize {
    f(a)
}
fn mutf(mut f: impl FnMut(usize) -> usize, a: usize) -> usize {
    f(a)
}
drv!(fn_once, s, c, [FnOnce(usize) -> usize], { "call_once" => o(&mut s)(c.a), "pass" => once(o(&mut s), c.a) });
enums!(fn_once_, fn_once, [], FnOnce);
drv!(fn_mut, s, c, [FnMut(usize) -> usize], {
    "call_mut" => m(&mut s)(c.a), "pass" => mutf(m(&mut s), c.a), "call_once" => once(o(&mut s), c.a),
});
enums!(fn_mut_, fn_mut, [], FnMut);
drv!(fn_, s, c, [Fn(usize) -> usize], {
    "call" => (*m(&mut s))(c.a), "call_mut" => m(&mut s).call_mut((c.a,)), "call_once" => once(o(&mut s), c.a),
    "pass" => mutf(&*m(&mut s), c.a),
});
enums!(fn__, fn_, [], Fn);

// ------------------------------------------------------------------ io
impl<const I: usize> Read for P<I> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = enter(self, "read", got(buf), 0).min(buf.len() + 1);
        fill(buf, r.saturating_sub(1));
        dio(leave(r))
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let r = enter(self, "read_vectored", bufs.len() * 10 + bufs.first().map_or(0, |b| got(b)), 0);
        if let Some(b) = bufs.first_mut() {
            fill(b, r.saturating_sub(1));
        }
        dio(leave(r))
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        let r = enter(self, "read_to_end", buf.len(), 0);
        buf.extend(1..r as u8);
        dio(leave(r))
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        let r = enter(self, "read_to_string", buf.len(), 0);
        buf.push_str(&"xxxxxx"[..r.saturating_sub(1)]);
        dio(leave(r))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let r = enter(self, "read_exact", got(buf), 0);
        fill(buf, r.saturating_sub(1));
        dio0(leave(r))
    }
}
fn rbuf(c: &Call, n: usize, f: impl FnOnce(&mut [u8]) -> usize) -> usize {
    let mut b = [0u8; 8];
    let b = &mut b[..n];
    give(b);
    let r = f(b);
    if filled(b, c.r.saturating_sub(1)) { r } else { BAD }
}
drv!(read, s, c, [Read], {
    "read" => rbuf(c, c.a, |b| eio(m(&mut s).read(b))),
    "read_vectored" => {
        let mut b2 = [0u8; 2];
        rbuf(c, c.a % 10, |b| {
            if c.a / 10 == 1 { eio(m(&mut s).read_vectored(&mut [IoSliceMut::new(b)])) } else { eio(m(&mut s).read_vectored(&mut [IoSliceMut::new(b), IoSliceMut::new(&mut b2)])) }
        })
    },
    "read_to_end" => { let mut v = vec![0; c.a]; let r = eio(m(&mut s).read_to_end(&mut v)); if v[c.a..].iter().copied().eq(1..c.r as u8) { r } else { BAD } },
    "read_to_string" => { let mut v = "y".repeat(c.a); let r = eio(m(&mut s).read_to_string(&mut v)); if v.len() == c.a + c.r.saturating_sub(1) { r } else { BAD } },
    "read_exact" => rbuf(c, c.a, |b| eio0(m(&mut s).read_exact(b), c.r)),
    "by_ref" => { let mut b = [0u8; 4]; give(&b); eio(m(&mut s).by_ref().read(&mut b)) },
    "take" => { let mut v = vec![]; eio(o(&mut s).take(2).read_to_end(&mut v).map(|n| n * 10 + v.len())) },
    "bytes" => { let mut b = o(&mut s).bytes(); match b.next() { None => 0, Some(Ok(x)) => x as usize + 1, Some(Err(_)) => 50 } },
    "chain" => { let mut v = String::new(); eio(o(&mut s).chain(&b"zz"[..]).read_to_string(&mut v).map(|n| n * 10 + v.len())) },
    "bufreader" => { let mut v = String::new(); eio(io::BufReader::with_capacity(3, o(&mut s)).read_line(&mut v)) },
});
enums!(read_, read, [c m], Read);
enums!(read_alias_, read, [c m], io::Read);

impl<const I: usize> BufRead for P<I> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let r = leave(enter(self, "fill_buf", 0, 0));
        dio(r).map(dbytes)
    }
    fn consume(&mut self, amt: usize) {
        enter(self, "consume", amt, 0);
        leave(0);
    }
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> io::Result<usize> {
        let r = enter(self, "read_until", byte as usize * 10 + buf.len(), 0);
        buf.extend(1..r as u8);
        dio(leave(r))
    }
    fn read_line(&mut self, buf: &mut String) -> io::Result<usize> {
        let r = enter(self, "read_line", buf.len(), 0);
        buf.push_str(&"xxxxxx"[..r.saturating_sub(1)]);
        dio(leave(r))
    }
}
drv!(buf_read, s, c, [BufRead], {
    "fill_buf" => eio(m(&mut s).fill_buf().map(ebytes)),
    "consume" => { m(&mut s).consume(c.a); 0 },
    "read_until" => { let n = c.a % 10; let mut v = vec![0; n]; let r = eio(m(&mut s).read_until((c.a / 10) as u8, &mut v)); if v[n..].iter().copied().eq(1..c.r as u8) { r } else { BAD } },
    "read_line" => { let mut v = "y".repeat(c.a); let r = eio(m(&mut s).read_line(&mut v)); if v.len() == c.a + c.r.saturating_sub(1) { r } else { BAD } },
    "read" => rbuf(c, c.a, |b| eio(m(&mut s).read(b))),
    "lines" => { let mut l = o(&mut s).lines(); match l.next() { None => 0, Some(Ok(x)) => x.len() + 1, Some(Err(_)) => 50 } },
    "split" => { let mut l = o(&mut s).split(2); match l.next() { None => 0, Some(Ok(x)) => x.len() + 1, Some(Err(_)) => 50 } },
    "take_fill" => eio(m(&mut s).by_ref().take(2).fill_buf().map(|b| b.len())),
});
enums!(buf_read_, buf_read, [c m], BufRead);
enums!(buf_read_alias_, buf_read, [c m], io::BufRead);

impl<const I: usize> io::Write for P<I> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        dio(leave(enter(self, "write", got(buf), 0)))
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        dio(leave(enter(self, "write_vectored", bufs.len() * 10 + bufs.first().map_or(0, |b| got(b)), 0)))
    }
    fn flush(&mut self) -> io::Result<()> {
        dio0(leave(enter(self, "flush", 0, 0)))
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        dio0(leave(enter(self, "write_all", got(buf), 0)))
    }
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> io::Result<()> {
        dio0(leave(enter(self, "iowrite_fmt", args.to_string().len(), 0)))
    }
}
fn wbuf(n: usize) -> &'static [u8] {
    give(&BYTES);
    &BYTES[..n]
}
drv!(write, s, c, [io::Write], {
    "write" => eio(m(&mut s).write(wbuf(c.a))),
    "write_vectored" => {
        let b = wbuf(c.a % 10);
        if c.a / 10 == 1 { eio(m(&mut s).write_vectored(&[IoSlice::new(b)])) } else { eio(m(&mut s).write_vectored(&[IoSlice::new(b), IoSlice::new(b"zz")])) }
    },
    "flush" => eio0(m(&mut s).flush(), c.r),
    "write_all" => eio0(m(&mut s).write_all(wbuf(c.a)), c.r),
    "iowrite_fmt" => eio0(write!(m(&mut s), "{}", "w".repeat(c.a)), c.r),
    "by_ref" => eio(m(&mut s).by_ref().write(wbuf(c.a))),
    "by_ref_fmt" => eio0(write!(m(&mut s).by_ref(), "{}{}", 1, "w".repeat(c.a)), c.r),
});
enums!(write_, write, [c m], Write);
enums!(write_alias_, write, [c m], io::Write);

impl<const I: usize> Seek for P<I> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let r = enter(self, "seek", eseek(pos), 0);
        dio(leave(r)).map(|x| x as u64)
    }
}
fn eseek(p: SeekFrom) -> usize {
    match p {
        SeekFrom::Start(1) => 0,
        SeekFrom::End(-2) => 1,
        SeekFrom::Current(3) => 2,
        SeekFrom::Start(0) => 3,
        SeekFrom::Current(0) => 4,
        SeekFrom::Current(-4) => 5,
        _ => BAD,
    }
}
fn dseek(a: usize) -> SeekFrom {
    match a {
        0 => SeekFrom::Start(1),
        1 => SeekFrom::End(-2),
        _ => SeekFrom::Current(3),
    }
}
drv!(seek, s, c, [Seek], {
    "seek" => eio(m(&mut s).seek(dseek(c.a)).map(|x| x as usize)),
    "rewind" => eio0(m(&mut s).rewind(), c.r),
    "stream_position" => eio(m(&mut s).stream_position().map(|x| x as usize)),
    "seek_relative" => eio0(m(&mut s).seek_relative(-4), c.r),
});
enums!(seek_, seek, [c m], Seek);
enums!(seek_alias_, seek, [c m], io::Seek);

// ------------------------------------------------------------------ Error
impl<const I: usize> std::error::Error for P<I> {
    fn description(&self) -> &str {
        std::str::from_utf8(dbytes(leave(enter(self, "description", 0, 0)))).unwrap()
    }
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match leave(enter(self, "source", 0, 0)) {
            0 => None,
            r => Some(&ERRS[r]),
        }
    }
}
static ERRS: [Ch; 6] = [Ch(0), Ch(1), Ch(2), Ch(3), Ch(4), Ch(5)];
#[derive(Debug)]
pub struct Ch(usize);
impl fmt::Display for Ch {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ch{}", self.0)
    }
}
impl std::error::Error for Ch {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        if self.0 > 1 { Some(&ERRS[self.0 - 1]) } else { None }
    }
}
// which error a source is: 0 none, 10 + v the held value itself, in place; k the chained error k
fn esrc(e: Option<&(dyn std::error::Error + 'static)>) -> usize {
    fn held<const I: usize>(e: &(dyn std::error::Error + 'static)) -> Option<usize> {
        e.downcast_ref::<P<I>>().map(|p| {
            let o = (p as *const P<I> as usize).wrapping_sub(BASE.load(std::sync::atomic::Ordering::SeqCst));
            if o < SIZE.load(std::sync::atomic::Ordering::SeqCst) && p.ok() { 10 + p.id } else { BAD }
        })
    }
    match e {
        None => 0,
        Some(e) => match e.downcast_ref::<Ch>() {
            Some(c) => c.0,
            None => held::<1>(e).or(held::<2>(e)).or(held::<3>(e)).or(held::<4>(e)).or(held::<5>(e)).or(held::<7>(e)).unwrap_or(BAD),
        },
    }
}
drv!(error, s, c, [std::error::Error + 'static], {
    "error_source" => esrc(std::error::Error::source(m(&mut s))),
    // the errors behind the held one
    "error_behind" => esrc(std::error::Error::source(m(&mut s)).and_then(|e| e.source())),
    "error_chain" => {
        // the length of the chain behind the held error
        let mut n = 0;
        let mut e = std::error::Error::source(m(&mut s)).and_then(|e| e.source());
        while let Some(x) = e { n += 1; e = x.source(); }
        n
    },
    "description" => { let d = std::error::Error::description(m(&mut s)); ebytes(d.as_bytes()) },
    "error_display" => { let mut t = Lim(String::new(), 100); let r = write!(t, "{:#}", m(&mut s)); match (r, &*t.0) { (Err(_), "") => 0, (Ok(()), "a") => 1, (Ok(()), "ab") => 2, _ => BAD } },
    "error_debug" => { let mut t = Lim(String::new(), 100); let r = write!(t, "{:+08.3?}", m(&mut s)); match (r, &*t.0) { (Err(_), "") => 0, (Ok(()), "a") => 1, (Ok(()), "ab") => 2, _ => BAD } },
    "error_dyn" => { let d: &dyn std::error::Error = m(&mut s); esrc(d.source()) },
});
enums!(error_, error, [c m], Error);
enums!(error_alias_, error, [c m], error::Error);
enums!(error_full_, error, [c m], Display, Error, fmt::Debug);

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "Iterator" => iterator_::run(s, n, v, tw, c),
        "DoubleEndedIterator" => double_ended_::run(s, n, v, tw, c),
        "ExactSizeIterator" => exact_size_::run(s, n, v, tw, c),
        "Extend" => extend_::run(s, n, v, tw, c),
        "Debug" => debug_::run(s, n, v, tw, c),
        "Display" => display_::run(s, n, v, tw, c),
        "Binary" => binary_::run(s, n, v, tw, c),
        "LowerExp" => lower_exp_::run(s, n, v, tw, c),
        "LowerHex" => lower_hex_::run(s, n, v, tw, c),
        "Octal" => octal_::run(s, n, v, tw, c),
        "UpperExp" => upper_exp_::run(s, n, v, tw, c),
        "UpperHex" => upper_hex_::run(s, n, v, tw, c),
        "Pointer" => pointer_::run(s, n, v, tw, c),
        "fmt::Write" => fmt_write_::run(s, n, v, tw, c),
        "Deref" => deref_::run(s, n, v, tw, c),
        "DerefMut" => deref_mut_::run(s, n, v, tw, c),
        "Index" => index_::run(s, n, v, tw, c),
        "IndexMut" => index_mut_::run(s, n, v, tw, c),
        "RangeBounds" => range_bounds_::run(s, n, v, tw, c),
        "AsRef" => as_ref_::run(s, n, v, tw, c),
        "AsMut" => as_mut_::run(s, n, v, tw, c),
        "FnOnce" => fn_once_::run(s, n, v, tw, c),
        "FnMut" => fn_mut_::run(s, n, v, tw, c),
        "Fn" => fn__::run(s, n, v, tw, c),
        "Read" => read_::run(s, n, v, tw, c),
        "io::Read" => read_alias_::run(s, n, v, tw, c),
        "BufRead" => buf_read_::run(s, n, v, tw, c),
        "io::BufRead" => buf_read_alias_::run(s, n, v, tw, c),
        "Write" => write_::run(s, n, v, tw, c),
        "io::Write" => write_alias_::run(s, n, v, tw, c),
        "Seek" => seek_::run(s, n, v, tw, c),
        "io::Seek" => seek_alias_::run(s, n, v, tw, c),
        "Error" => error_::run(s, n, v, tw, c),
        "error::Error" => error_alias_::run(s, n, v, tw, c),
        "Error+" => error_full_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
