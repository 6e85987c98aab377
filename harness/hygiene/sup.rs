// What the programs of the Hygiene specification are made of.
pub type Out = String;
pub use std::future::Future;
pub fn a(x: u8) -> std::iter::Once<u8> { std::iter::once(x) }
pub fn b(x: u8) -> std::vec::IntoIter<u8> { vec![x].into_iter() }
pub fn c(x: u8) -> std::option::IntoIter<u8> { Some(x).into_iter() }
pub fn sum<I: Iterator<Item = u8>>(mut i: I) -> u8 { let mut s = 0; while let Some(x) = i.next() { s += x; } s }
pub fn fa(x: u8) -> std::future::Ready<u8> { std::future::ready(x) }
pub fn fb(x: u8) -> std::pin::Pin<Box<dyn Future<Output = u8>>> { Box::pin(std::future::ready(x)) }
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) { std::task::Poll::Ready(x) => x, _ => panic!() }
}
pub struct W(pub u8);
impl std::fmt::Debug for W { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Copy)] pub struct X(pub u8);
impl std::fmt::Debug for X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
/// an error with the number of its function when it is asked to
pub fn e1(n: u8) -> Result<u8, W> { if n == 1 { Err(W(1)) } else { Ok(n) } }
pub fn e2(n: u8) -> Result<u8, X> { if n == 2 { Err(X(2)) } else { Ok(n) } }
pub fn num<T: std::fmt::Debug>(t: T) -> u8 { format!("{t:?}").parse().unwrap() }
pub fn res<T: std::fmt::Debug>(r: Result<u8, T>) -> u8 { match r { Ok(x) => x, Err(e) => num(e) } }
pub fn some<T: std::fmt::Debug>(r: Option<T>) -> u8 { num(r.unwrap()) }
pub fn show(xs: &[u8]) -> Out { format!("{xs:?}") }
