// Traits that std's adapters specialise on: their probe is apart, so that the probes of the other
// iterator traits stay ordinary.
#![feature(trusted_len)]
#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs)]
#[macro_use]
mod common;
pub use common::*;

impl<const I: usize> Iterator for P<I> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        dopt(leave(enter(self, "next", 0, 0)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let r = leave(enter(self, "size_hint", 0, 0));
        (r, Some(r))
    }
}
fn hash(v: impl IntoIterator<Item = usize>) -> usize {
    v.into_iter().fold(7, |h, x| (h * 31 + x) % 99991)
}
impl<const I: usize> std::iter::FusedIterator for P<I> {}
unsafe impl<const I: usize> std::iter::TrustedLen for P<I> {}
drv!(fused, s, c, [std::iter::FusedIterator<Item = usize>], {
    "next" => eopt(m(&mut s).next()),
    "fuse_next" => eopt(m(&mut s).fuse().next()),
    "fuse_all" => hash(o(&mut s).fuse()),
});
enums!(fused_, fused, [c], FusedIterator);
drv!(trusted, s, c, [std::iter::TrustedLen<Item = usize>], {
    "next" => eopt(m(&mut s).next()),
    "size_hint" => m(&mut s).size_hint().0,
});
enums!(trusted_, trusted, [c], TrustedLen);

fn run(t: &str, s: &str, n: usize, v: usize, tw: bool, c: &[Call]) {
    match t {
        "FusedIterator" => fused_::run(s, n, v, tw, c),
        "TrustedLen" => trusted_::run(s, n, v, tw, c),
        _ => panic!("no trait {t}"),
    }
}
fn main() {
    main_loop(run);
}
