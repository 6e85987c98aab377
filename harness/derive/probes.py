"""Probe types for the EnumDerive specification: text of the Rust crate `probes`.

Pr<S, K, U, Q> implements a trait exactly if the marker S says so; its associated types are those
of the kind K, the traits with a parameter are implemented for the parameter Q, and it is Unpin
exactly if U is.  is(t, q) asks whether any type implements the trait t (for the parameter number q),
asc(t, q) names its associated types."""

# canonical name -> (trait, items, associated types)
IO = "::std::io::Result<usize>"
PIN = "::core::pin::Pin<&mut Self>"
CX = "_: &mut ::core::task::Context<'_>"
PO = "::core::task::Poll"
STD = {
    "Clone": ("::core::clone::Clone", "fn clone(&self) -> Self { loop {} }", []),
    "Copy": ("::core::marker::Copy", "", []),
    "PartialEq": ("::core::cmp::PartialEq", "fn eq(&self, _: &Self) -> bool { loop {} }", []),
    "Eq": ("::core::cmp::Eq", "", []),
    "PartialOrd": ("::core::cmp::PartialOrd", "fn partial_cmp(&self, _: &Self) -> Option<::core::cmp::Ordering> { loop {} }", []),
    "Ord": ("::core::cmp::Ord", "fn cmp(&self, _: &Self) -> ::core::cmp::Ordering { loop {} }", []),
    "Hash": ("::core::hash::Hash", "fn hash<H: ::core::hash::Hasher>(&self, _: &mut H) { loop {} }", []),
    "AsRef": ("::core::convert::AsRef<@Q>", "fn as_ref(&self) -> &Q { loop {} }", []),
    "AsMut": ("::core::convert::AsMut<@Q>", "fn as_mut(&mut self) -> &mut Q { loop {} }", []),
    "fmt::Write": ("::core::fmt::Write", "fn write_str(&mut self, _: &str) -> ::core::fmt::Result { loop {} }", []),
    "Iterator": ("::core::iter::Iterator", "type Item = K::A; fn next(&mut self) -> Option<K::A> { loop {} }", ["Item"]),
    "DoubleEndedIterator": ("::core::iter::DoubleEndedIterator", "fn next_back(&mut self) -> Option<K::A> { loop {} }", []),
    "ExactSizeIterator": ("::core::iter::ExactSizeIterator", "", []),
    "FusedIterator": ("::core::iter::FusedIterator", "", []),
    "TrustedLen": ("unsafe ::core::iter::TrustedLen", "", []),
    "Extend": ("::core::iter::Extend<@Q>", "fn extend<I: IntoIterator<Item = Q>>(&mut self, _: I) { loop {} }", []),
    "Deref": ("::core::ops::Deref", "type Target = K::A; fn deref(&self) -> &K::A { loop {} }", ["Target"]),
    "DerefMut": ("::core::ops::DerefMut", "fn deref_mut(&mut self) -> &mut K::A { loop {} }", []),
    "Index": ("::core::ops::Index<@Q>", "type Output = K::A; fn index(&self, _: Q) -> &K::A { loop {} }", ["Output"]),
    "IndexMut": ("::core::ops::IndexMut<@Q>", "fn index_mut(&mut self, _: Q) -> &mut K::A { loop {} }", []),
    "RangeBounds": ("::core::ops::RangeBounds<@Q>", "fn start_bound(&self) -> ::core::ops::Bound<&Q> { loop {} } fn end_bound(&self) -> ::core::ops::Bound<&Q> { loop {} }", []),
    "FnOnce": ("::core::ops::FnOnce<(@Q,)>", 'type Output = K::A; extern "rust-call" fn call_once(self, _: (Q,)) -> K::A { loop {} }', ["Output"]),
    "FnMut": ("::core::ops::FnMut<(@Q,)>", 'extern "rust-call" fn call_mut(&mut self, _: (Q,)) -> K::A { loop {} }', []),
    "Fn": ("::core::ops::Fn<(@Q,)>", 'extern "rust-call" fn call(&self, _: (Q,)) -> K::A { loop {} }', []),
    "Coroutine": ("::core::ops::Coroutine<@Q>", f"type Yield = K::A; type Return = K::B; fn resume(self: {PIN}, _: Q) -> ::core::ops::CoroutineState<K::A, K::B> {{ loop {{}} }}", ["Yield", "Return"]),
    "Future": ("::core::future::Future", f"type Output = K::A; fn poll(self: {PIN}, {CX}) -> {PO}<K::A> {{ loop {{}} }}", ["Output"]),
    "Read": ("::std::io::Read", f"fn read(&mut self, _: &mut [u8]) -> {IO} {{ loop {{}} }}", []),
    "BufRead": ("::std::io::BufRead", "fn fill_buf(&mut self) -> ::std::io::Result<&[u8]> { loop {} } fn consume(&mut self, _: usize) { loop {} }", []),
    "Write": ("::std::io::Write", f"fn write(&mut self, _: &[u8]) -> {IO} {{ loop {{}} }} fn flush(&mut self) -> ::std::io::Result<()> {{ loop {{}} }}", []),
    "Seek": ("::std::io::Seek", "fn seek(&mut self, _: ::std::io::SeekFrom) -> ::std::io::Result<u64> { loop {} }", []),
    "Error": ("::std::error::Error", "", []),
}
for _x in ("Debug", "Display", "Pointer", "Binary", "Octal", "UpperHex", "LowerHex", "UpperExp", "LowerExp"):
    STD[_x if _x in ("Debug", "Display") else "fmt::" + _x] = ("::core::fmt::" + _x, "fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} }", [])


def _async(c, m, v):
    """the asynchronous IO traits of one crate"""
    rb = f"_: &mut {m}::ReadBuf<'_>" if v in (1, 3) else "_: &mut [u8]"
    rr = f"{PO}<::std::io::Result<()>>" if v in (1, 3) else f"{PO}<{IO}>"
    close = "poll_close" if v == 0 else "poll_shutdown"
    if v == 0:
        seek = f"fn poll_seek(self: {PIN}, {CX}, _: ::std::io::SeekFrom) -> {PO}<::std::io::Result<u64>> {{ loop {{}} }}"
    elif v == 2:
        seek = f"fn start_seek(self: {PIN}, {CX}, _: ::std::io::SeekFrom) -> {PO}<::std::io::Result<()>> {{ loop {{}} }} fn poll_complete(self: {PIN}, {CX}) -> {PO}<::std::io::Result<u64>> {{ loop {{}} }}"
    else:
        seek = f"fn start_seek(self: {PIN}, _: ::std::io::SeekFrom) -> ::std::io::Result<()> {{ loop {{}} }} fn poll_complete(self: {PIN}, {CX}) -> {PO}<::std::io::Result<u64>> {{ loop {{}} }}"
    return {
        c + "::AsyncRead": (m + "::AsyncRead", f"fn poll_read(self: {PIN}, {CX}, {rb}) -> {rr} {{ loop {{}} }}", []),
        c + "::AsyncBufRead": (m + "::AsyncBufRead", f"fn poll_fill_buf(self: {PIN}, {CX}) -> {PO}<::std::io::Result<&[u8]>> {{ loop {{}} }} fn consume(self: {PIN}, _: usize) {{ loop {{}} }}", []),
        c + "::AsyncWrite": (m + "::AsyncWrite", f"fn poll_write(self: {PIN}, {CX}, _: &[u8]) -> {PO}<{IO}> {{ loop {{}} }} fn poll_flush(self: {PIN}, {CX}) -> {PO}<::std::io::Result<()>> {{ loop {{}} }} fn {close}(self: {PIN}, {CX}) -> {PO}<::std::io::Result<()>> {{ loop {{}} }}", []),
        c + "::AsyncSeek": (m + "::AsyncSeek", seek, []),
    }


A = {
    **_async("futures03", "::futures::io", 0), **_async("tokio1", "::tokio::io", 1),
    "futures03::Stream": ("::futures::stream::Stream", f"type Item = K::A; fn poll_next(self: {PIN}, {CX}) -> {PO}<Option<K::A>> {{ loop {{}} }}", ["Item"]),
    "futures03::Sink": ("::futures::sink::Sink<@Q>", f"type Error = K::A; fn poll_ready(self: {PIN}, {CX}) -> {PO}<Result<(), K::A>> {{ loop {{}} }} fn start_send(self: {PIN}, _: Q) -> Result<(), K::A> {{ loop {{}} }} fn poll_flush(self: {PIN}, {CX}) -> {PO}<Result<(), K::A>> {{ loop {{}} }} fn poll_close(self: {PIN}, {CX}) -> {PO}<Result<(), K::A>> {{ loop {{}} }}", ["Error"]),
    "rayon::ParallelIterator": ("::rayon::iter::ParallelIterator", "type Item = K::A; fn drive_unindexed<C: ::rayon::iter::plumbing::UnindexedConsumer<K::A>>(self, _: C) -> C::Result { loop {} }", ["Item"]),
    "rayon::IndexedParallelIterator": ("::rayon::iter::IndexedParallelIterator", "fn len(&self) -> usize { loop {} } fn drive<C: ::rayon::iter::plumbing::Consumer<K::A>>(self, _: C) -> C::Result { loop {} } fn with_producer<C: ::rayon::iter::plumbing::ProducerCallback<K::A>>(self, _: C) -> C::Output { loop {} }", []),
    "rayon::ParallelExtend": ("::rayon::iter::ParallelExtend<@Q>", "fn par_extend<I: ::rayon::iter::IntoParallelIterator<Item = Q>>(&mut self, _: I) { loop {} }", []),
    "serde::Serialize": ("::serde::ser::Serialize", "fn serialize<Z: ::serde::ser::Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> { loop {} }", []),
    "http_body1::Body": ("::http_body::Body", f"type Data = K::D; type Error = K::B; fn poll_frame(self: {PIN}, {CX}) -> {PO}<Option<Result<::http_body::Frame<K::D>, K::B>>> {{ loop {{}} }}", ["Data", "Error"]),
}
B = {
    "futures01::Future": ("::futures::future::Future", "type Item = K::A; type Error = K::B; fn poll(&mut self) -> ::futures::Poll<K::A, K::B> { loop {} }", ["Item", "Error"]),
    "futures01::Stream": ("::futures::stream::Stream", "type Item = K::A; type Error = K::B; fn poll(&mut self) -> ::futures::Poll<Option<K::A>, K::B> { loop {} }", ["Item", "Error"]),
    "futures01::Sink": ("::futures::sink::Sink", "type SinkItem = K::A; type SinkError = K::B; fn start_send(&mut self, _: K::A) -> ::futures::StartSend<K::A, K::B> { loop {} } fn poll_complete(&mut self) -> ::futures::Poll<(), K::B> { loop {} } fn close(&mut self) -> ::futures::Poll<(), K::B> { loop {} }", ["SinkItem", "SinkError"]),
    "tokio01::AsyncRead": ("::tokio::io::AsyncRead", "", []),
    "tokio01::AsyncWrite": ("::tokio::io::AsyncWrite", "fn shutdown(&mut self) -> ::futures::Poll<(), ::std::io::Error> { loop {} }", []),
}
WORLDS = {"a": A, "b": B, "c": _async("tokio03", "::tokio::io", 3), "d": _async("tokio02", "::tokio::io", 2)}
EXTERN = {"a": ["futures03", "tokio1", "http_body1", "rayon", "serde", "bytes"], "b": ["futures01", "tokio01"], "c": ["tokio03"], "d": ["tokio02"]}
ALIAS = {"futures03": "futures", "futures01": "futures", "tokio1": "tokio", "tokio01": "tokio", "tokio02": "tokio", "tokio03": "tokio",
         "http_body1": "http_body", "rayon": "rayon", "serde": "serde", "bytes": "bytes"}
FEATS = "specialization, fn_traits, unboxed_closures, coroutine_trait, trusted_len, exact_size_is_empty"


def ident(t):
    return t.replace("::", "_")


def externs(world):
    return "".join(f"extern crate {x}_crate as {ALIAS[x]};\n" for x in EXTERN[world])


def source(world, deps):
    """deps: {canonical: set of all prerequisites}"""
    ts = {**STD, **WORLDS[world]}
    o = [f"#![feature({FEATS})]\n#![allow(warnings)]\n" + externs(world) + """
use core::marker::PhantomData;
pub struct Pr<S, K = K00, U = (), Q = u8>(PhantomData<(S, K, U, Q)>, U, PhantomData<*const ()>);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct T<const N: usize>;
pub trait Kind { type A: Send + 'static; type B: 'static; type D: Buf; }
pub struct K00; pub struct K10; pub struct K01; pub struct Q2;
"""]
    if world == "a":
        o.append("pub use bytes::Buf;\nimpl<const N: usize> Buf for T<N> { fn remaining(&self) -> usize { loop {} } fn chunk(&self) -> &[u8] { loop {} } fn advance(&mut self, _: usize) { loop {} } }")
    else:
        o.append("pub trait Buf {} impl<const N: usize> Buf for T<N> {}")
    for k in ("00", "10", "01"):
        o.append(f"impl Kind for K{k} {{ type A = T<{k[0]}>; type B = T<{k[1]}>; type D = T<{k[0]}>; }}")
    for b in ("Debug", "Display", "Binary", "LowerHex"):
        o.append(f"impl<const N: usize> ::core::fmt::{b} for T<N> {{ fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ loop {{}} }} }}")
    o.append("pub mod m {\n" + "\n".join(f"pub trait {ident(t)}: {' + '.join(ident(x) for x in sorted(deps.get(t, ()))) or 'Sized'} {{}}" for t in ts) + "\n}")
    o.append("pub struct Full; pub struct Nil;")
    for t in ts:
        o.append(f"impl m::{ident(t)} for Full {{}} pub struct Just_{ident(t)}; pub struct But_{ident(t)};")
        for x in sorted({t} | set(deps.get(t, ()))):
            o.append(f"impl m::{ident(x)} for Just_{ident(t)} {{}}")
        for x in ts:
            if x != t and t not in deps.get(x, ()):
                o.append(f"impl m::{ident(x)} for But_{ident(t)} {{}}")
    if world == "a":
        o.append("unsafe impl<S: m::rayon_ParallelIterator, K, U, Q> Send for Pr<S, K, U, Q> {}")
    for t in ts:
        o.append(f"impl<S: m::{ident(t)}, K, U, Q> m::{ident(t)} for Pr<S, K, U, Q> {{}}")
    for t, (path, items, asc) in ts.items():
        uns, path = ("unsafe ", path[7:]) if path.startswith("unsafe ") else ("", path)
        more = ", U: Copy" if t == "Copy" else ""
        par = ": Send" if t == "rayon::ParallelExtend" else ""
        kk = "K: Kind" if "K::" in items else "K: Kind"
        if t.startswith("rayon::") and t != "rayon::ParallelExtend":
            more = ", Self: Send"
        o.append(f"{uns}impl<S: m::{ident(t)}, {kk}, U, Q{par}> {path.replace('@Q', 'Q')} for Pr<S, K, U, Q> where Q: 'static{more} {{ {items} }}")
        for q in (["u8", "u16"] if "@Q" in path else ["u8"]):
            sfx = "" if q == "u8" else "_1"
            b = path.replace("@Q", q)
            o.append(f"pub fn is_{ident(t)}{sfx}<X>() -> bool {{ trait I {{ const V: bool; }} impl<X> I for X {{ default const V: bool = false; }} impl<X: {b}> I for X {{ const V: bool = true; }} <X as I>::V }}")
            if asc:
                ns = ", ".join(f"::core::any::type_name::<<X as {b}>::{a}>()" for a in asc)
                o.append(f"pub fn asc_{ident(t)}{sfx}<X>() -> Vec<&'static str> {{ trait I {{ fn v() -> Vec<&'static str>; }} impl<X> I for X {{ default fn v() -> Vec<&'static str> {{ vec![] }} }} impl<X: {b}> I for X {{ fn v() -> Vec<&'static str> {{ vec![{ns}] }} }} <X as I>::v() }}")
    o.append("pub fn is_Unpin<X>() -> bool { trait I { const V: bool; } impl<X> I for X { default const V: bool = false; } impl<X: Unpin> I for X { const V: bool = true; } <X as I>::V }")
    # every trait of the world a type implements, in the order of ROW
    o.append("pub const ROW: &[&str] = &[" + ", ".join(f'"{t}"' for t in ts) + "];")
    o.append("pub fn row<X>() -> String { let v = [" + ", ".join(f"is_{ident(t)}::<X>()" for t in ts) + "]; v.iter().map(|x| if *x { '1' } else { '0' }).collect() }")
    o.append("""
pub trait HasRow { fn the_row(&self) -> String; }
impl<X> HasRow for X { fn the_row(&self) -> String { row::<X>() } }
pub trait Mk {} impl<T: ?Sized> Mk for T {}
pub trait Wh {} impl<S, K, U, Q> Wh for Pr<S, K, U, Q> {} impl<S, K, U, Q> Wh for &Pr<S, K, U, Q> {} impl Wh for u8 {} impl Wh for core::marker::PhantomPinned {} impl Wh for &u8 {}
pub fn make<X>() -> X { loop {} }
pub fn full() -> Pr<Full> { Pr(PhantomData, (), PhantomData) }
pub fn the<const N: usize>() -> T<N> { T }
""")
    return "\n".join(o) + "\n"
