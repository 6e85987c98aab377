// Observes what #[enum_derive] emits: the item itself (as tokens), and which derives it was passed on to.
use proc_macro::{Delimiter, TokenStream, TokenTree};

// tokens separated by single spaces, without trailing commas
fn text(ts: TokenStream) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if a == "{" && v.last().is_some_and(|x| x == ",") {
                    v.pop();
                }
                v.push(a.into());
                let mut i = text(g.stream());
                if i.last().is_some_and(|x| x == ",") {
                    i.pop();
                }
                v.extend(i);
                v.push(b.into());
            }
            TokenTree::Punct(p) => {
                let p = p.as_char().to_string();
                if p == ">" && v.last().is_some_and(|x| x == ",") {
                    v.pop();
                }
                v.push(p);
            }
            t => v.push(t.to_string()),
        }
    }
    v
}

/// Emits the item it is given, and `OBS`: that item, less its `#[derive]` attributes.
#[proc_macro_attribute]
pub fn observe(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut keep = vec![];
    let all: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut i = 0;
    while i < all.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&all[i], all.get(i + 1)) {
            if p.as_char() == '#' && g.stream().to_string().starts_with("derive") {
                i += 2;
                continue;
            }
        }
        keep.push(all[i].clone());
        i += 1;
    }
    let s = text(keep.into_iter().collect()).join(" ");
    let mut out = item;
    out.extend(format!("pub const OBS: &str = {s:?};").parse::<TokenStream>().unwrap());
    out
}

/// An attribute that has to survive: does nothing.
#[proc_macro_attribute]
pub fn nop(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

// Derives the user wrote: each leaves a constant in the module of the enum.
macro_rules! derives {
    ($($d:ident $f:ident $c:literal)*) => {$(
        #[proc_macro_derive($d, attributes(keep))]
        pub fn $f(_: TokenStream) -> TokenStream {
            concat!("pub const ", $c, ": bool = true;").parse().unwrap()
        }
    )*};
}
derives! {
    P0 p0 "D0" P1 p1 "D1" P2 p2 "D2" P3 p3 "D3" P4 p4 "D4" P5 p5 "D5" P6 p6 "D6" P7 p7 "D7" P8 p8 "D8" P9 p9 "D9"
    P10 p10 "D10" P11 p11 "D11" P12 p12 "D12" P13 p13 "D13" P14 p14 "D14" P15 p15 "D15" P16 p16 "D16" P17 p17 "D17" P18 p18 "D18" P19 p19 "D19"
}
