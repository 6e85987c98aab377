// Attributes that compare the item an attribute macro leaves behind with what was written.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

// tokens separated by single spaces, without trailing commas
fn text(ts: TokenStream) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let mut i = text(g.stream());
                if i.last().is_some_and(|x| x == ",") {
                    i.pop();
                }
                if a == "" {
                    v.extend(i);
                    continue;
                }
                v.push(a.into());
                v.extend(i);
                v.push(b.into());
            }
            TokenTree::Punct(p) => v.push(p.as_char().to_string()),
            t => v.push(t.to_string()),
        }
    }
    v
}

fn differ(what: &str, want: Vec<String>, have: Vec<String>, item: TokenStream) -> TokenStream {
    if want == have {
        return item;
    }
    let i = (0..).find(|&i| want.get(i) != have.get(i)).unwrap();
    let cut = |v: &[String]| v[i.saturating_sub(3).min(v.len())..(i + 6).min(v.len())].join(" ");
    format!("::core::compile_error!({:?});", format!("{what} changed: `{}` became `{}`", cut(&want), cut(&have))).parse().unwrap()
}

/// The attributes and the signature of a function are those of the argument.
#[proc_macro_attribute]
pub fn sig(args: TokenStream, item: TokenStream) -> TokenStream {
    let mut v: Vec<TokenTree> = item.clone().into_iter().collect();
    v.pop();
    differ("signature", text(args), text(v.into_iter().collect()), item)
}

/// The whole item is that of the argument.
#[proc_macro_attribute]
pub fn all(args: TokenStream, item: TokenStream) -> TokenStream {
    differ("item", text(args), text(item.clone()), item)
}
