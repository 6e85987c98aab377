"""Render a program of the AutoEnum specification (JSON from TLC) as Rust source."""

BLOCKLIKE = {"if", "match", "block", "unsafe", "loop", "while", "for", "async", "tryb"}

ANN = {
    "D": "#[auto_enum(Debug)]",
    "Dp": "#[auto_enum(Debug, Display)]",
    "Dm1": "#[auto_enum(Debug, marker = m1)]",
    "Dm2": "#[auto_enum(marker = m2, Debug)]",
    "Dmm": "#[auto_enum(Debug, marker = marker)]",
    "E": "#[auto_enum]",
    "E0": "#[auto_enum()]",
    "Em1": "#[auto_enum(marker = m1)]",
    "Xdup": "#[auto_enum(marker = f, marker = m1, Debug)]",
    "Xdup2": "#[auto_enum(marker = m1, Debug, marker = m1)]",
    "Xdup3": "#[auto_enum(Debug, marker = marker, marker = m1,)]",
    "Xmk1": "#[auto_enum(marker = 1, Debug)]",
    "Xmkp": "#[auto_enum(Debug, marker = a::b)]",
    "Xmks": "#[auto_enum(marker = \"m1\", Debug)]",
    "Xcom": "#[auto_enum(, Debug)]",
    "Xcc": "#[auto_enum(Debug,, Display)]",
    "Xsp": "#[auto_enum(Debug Display)]",
    "Dtc": "#[auto_enum(Debug,)]",
    "Dm1t": "#[auto_enum(Debug, marker = m1,)]",
    "Xsemi": "#[auto_enum(Debug;)]",
    "Xmk": "#[auto_enum(marker(f), Debug)]",
    "Xmk0": "#[auto_enum(marker =, Debug)]",
    "Xnv": "#[auto_enum = \"Debug\"]",
}
ATTR = {
    "never": "#[never]", "nested": "#[nested]", "rec": "#[rec]",
    "never()": "#[never(x)]", "nested()": "#[nested(x)]",
}
# spellings that are (not) recognised as Result<T, impl Trait>
RES = ["Result<L<0>, impl Debug>", "std::result::Result<L<0>, impl Debug>", "core::result::Result<L<0>, impl Debug>",
       "::std::result::Result<L<0>, impl Debug>", "::core::result::Result<L<0>, impl Debug,>", "Result<L<{ 0 }>, impl Debug,>"]
RESN = ["ri::Result<L<0>, impl Debug>", "ri::result::Result<L<0>, impl Debug>", "R2<L<0>, impl Debug>", "ri::Result<L<0>, impl Debug, ()>",
        "std::result::Result::<L<0>, impl Debug>", "ri::std::result::Result<L<0>, impl Debug>", "Result<L<0>, impl Debug, u8>"]
MARKERS = {"marker", "m1", "m2"}
RET = {"impl": " -> impl Debug", "res": " -> Result<L<0>, impl Debug>",
       "resn": " -> ri::Result<L<0>, impl Debug>", "resE1": " -> Result<L<0>, E<1>>", "opt": " -> Option<L<0>>", "l0": " -> L<0>", "unit": ""}


class Renderer:
    """`alt` is an integer whose bits choose between equivalent surface forms."""

    def __init__(self, alt=0, fam=None):
        self.alt = alt
        self.fam = fam or {}
        self.k = 0
        self.items = 0
        self.frags = [] if alt and alt % 3 == 0 else None     # expressions passed in by macro_rules

    def pick(self, n):
        self.k += 1
        x = (self.alt * 2654435761 + self.k * 40503 + (self.alt >> 7)) & 0xFFFFFFFF
        x ^= x >> 15
        return x % n

    def attrs(self, e):
        s = "".join(ATTR[a] + " " for a in sorted(e["a"]))
        if e["m"]:
            an = ANN[e["m"]]
            if self.alt and "Display" not in an and "X" != e["m"][0]:
                pass
            s += an + " "
        return s

    def block(self, ss, label=""):
        return "{ " + self.stmts(ss) + "}"

    def stmts(self, ss, head=False):
        return "".join(self.stmt(s, not head and i + 1 == len(ss)) + " " for i, s in enumerate(ss))

    def stmt(self, s, last):
        k = s["k"]
        if k == "semi":
            x = self.expr(s["c"][0])
            e = s["c"][0]
            if e["k"] == "mac" and e["a"] and self.alt:
                x = ["", "", "#[cfg(all())] ", "#[allow(unused)] "][self.pick(4)] + x
            if self.alt and self.pick(10) == 0:
                x = "#[cfg(any())] val!(()); " + x
            return x + ";"
        if k == "let":
            init = " = " + self.expr(s["c"][0]) if s["c"] else ""
            if s["s"] == "ta":
                ty = ": impl Debug"
            else:
                ty = ""
            pre, pat = "", f"v{s['n']}"
            if self.alt:
                pre = ["", "", "", "#[allow(unused)] ", "#[cfg(any())] let nope: () = (1, 2); ", "#[cfg(all())] "][self.pick(6)]
                pat = [pat, pat, pat, "mut " + pat, f"({pat})", f"{pat} @ _"][self.pick(6)]
            return f"{pre}{self.attrs(s)}let {pat}{ty}{init};"
        if k == "lelse":
            return f"let true = b() else {self.block(s['c'][0]['c'])};"
        if k == "item":
            return self.item(s)
        if not last:                   # a statement without semicolon is no place for a fragment
            return self.attrs(s) + self.bare(s)
        return self.expr(s)

    def item(self, s):
        self.items += 1
        if s["s"] == "any":
            return ITEMS[self.pick(len(ITEMS))].replace("#", self.attrs(s))
        ret = ["fn item() -> L<9> { return l::<9>(); }",
               "struct It; impl It { fn go() -> L<9> { return l::<9>(); } } fn item() -> L<9> { It::go() }",
               "trait It { fn go() -> L<9> { return l::<9>(); } } impl It for () {} fn item() -> L<9> { <() as It>::go() }",
               "const IT: fn() -> L<9> = { fn g() -> L<9> { return l::<9>(); } g }; fn item() -> L<9> { IT() }",
               "fn item() -> L<9> { macro_rules! marker { ($e:expr) => { [$e] } } let [x] = marker!(l::<9>()); return x; }"]
        con = ["#[allow(dead_code)] const C: usize = { let mut i = 0; loop { if i > 2 { break i; } i += 1; } };",
               "#[allow(dead_code)] const C: usize = { macro_rules! marker { ($e:expr) => { $e + 40 } } marker!(2) };",
               "#[allow(dead_code)] static C: [u8; { macro_rules! marker { ($e:expr) => { $e } } marker!(2) }] = { macro_rules! m1 { ($e:expr) => { [$e, 1] } } m1!(0) };",
               "#[allow(dead_code)] enum C { A = { macro_rules! marker { ($e:expr) => { $e } } if true { marker!(1) } else { 2 } } }",
               "#[allow(dead_code)] mod c { pub const C: u8 = { macro_rules! marker { ($e:expr) => { $e } } marker!(1u8) }; pub fn f(x: Option<u8>) -> Option<u8> { x?; x?; return Some(C); } }"]
        return {
            "ret": ret[self.pick(len(ret))] if self.alt else ret[0],
            "nested": "#[auto_enum(Debug)] fn item() -> impl Debug { if b() { return l::<8>(); } match 0 { 0 => l::<9>(), 1 => panic!(), _ => l::<7>() } }",
            "plain": "#[allow(dead_code)] fn plain() {}",
            "const": con[self.pick(len(con))] if self.alt else con[0],
            "macro": "#[allow(unused_macros)] macro_rules! mm { ($e:expr) => { return $e }; }",
        }[s["s"]]

    def opt(self, c):
        if not c:
            return ""
        x, e = self.expr(c[0]), c[0]
        while e["k"] in ("break", "ret", "meth", "call", "try") and e["c"]:
            e = e["c"][0]
        return " (" + x + ")" if e["s"].startswith("'") and e["k"] in BLOCKLIKE else " " + x

    def expr(self, e):
        if self.frags is None or len(self.frags) == 4 or e["k"] in ("leaf", "unit", "var") or self.pick(4) or not closed(e):
            return self.attrs(e) + self.bare(e)
        fs, self.frags = self.frags, None
        x = self.bare(e)
        self.frags = fs
        # syn cannot parse every fragment that starts with an attribute; and rustc drops the
        # invisible delimiters, so that a struct literal would become the head of a match
        if x[0] == "#" or x.startswith("Wr {"):
            return self.attrs(e) + x
        self.frags = fs + [x]
        return f"{self.attrs(e)}$frag{len(fs)}"

    def whole(self, item, name):
        """macro_rules around an item some expressions of which are fragments"""
        if not self.frags:
            return item
        ps = ", ".join(f"$frag{i}:expr" for i in range(len(self.frags)))
        return f"macro_rules! fr_{name} {{ ({ps}) => {{ {item} }} }} fr_{name}! {{ {', '.join(self.frags)} }}"

    def cond(self, e):
        b = "{ " + self.stmts(e["c"][0]["c"], True) + "b() }" if e["n"] else "b()"
        c = "(" + b + ")" if e["n"] else b
        return [b, c + " == true", "let true = " + b][self.pick(3)] if self.alt else b

    def bare(self, e):
        k, s, n, c = e["k"], e["s"], e["n"], e["c"]
        lab = s + ": " if s.startswith("'") else ""
        if k == "leaf":
            return f"l::<{n}>()"
        if k == "eleaf":
            return f"e::<{n}>()"
        if k == "unit":
            return "()"
        if k == "if":
            r = f"if {self.cond(e)} "
            c = c[n:]
            r += self.block(c[0]["c"])
            if len(c) == 2:
                r += " else " + (self.bare(c[1]) if c[1]["k"] == "if" else self.block(c[1]["c"]))
            return r
        if k == "match":
            r = f"match m({len(c)}) {{ " if not n else f"match {{ {self.stmts(c[0]['c'], True)}m({len(c) - 1}) }} {{ "
            c = c[n:]
            for i, a in enumerate(c):
                pat = "_" if i + 1 == len(c) else str(i)
                if len(a["c"]) == 2:
                    pat += " if { " + self.stmts(a["c"][0]["c"], True) + "true }"
                body = self.expr(a["c"][-1])
                if len(a["c"]) == 2:
                    pass
                elif self.alt and i + 1 < len(c) and self.pick(4) == 0:
                    pat = f"x if x == {i}"
                elif self.alt and i + 1 < len(c):
                    pat = [pat, pat, f"{i} | 100", f"_y @ {i}", pat, f"#[allow(unused)] {pat}"][self.pick(6)]
                sep = ", "
                if a["c"][-1]["k"] == "block" and body[0] not in "'$" and self.pick(2) and not a["c"][-1]["m"] and not a["c"][-1]["a"]:
                    sep = " "
                if self.alt and self.pick(12) == 0:
                    r += "#[cfg(any())] 7 => unreachable!(), "
                r += f"{self.attrs(a)}{pat} => {body}{sep}"
            return r + "}"
        if k == "block":
            return lab + self.block(c)
        if k == "unsafe":
            return "unsafe " + self.block(c)
        if k == "paren":
            return "(" + self.expr(c[0]) + ")"
        if k == "meth":
            r = self.expr(c[0])
            if c[0]["a"] or c[0]["m"] or r.startswith("'") or c[0]["k"] in {"ret", "break", "cont", "clos", "async"}:
                r = "(" + r + ")"
            return r + (["", ".idm()", ".idm()", ".idt::<u8>()", ".idt::<Vec<u8>>()", ".ida(xx(1), 2)", ".idg::<[u8; 2], 3>(|x: u8| x + 1,)"][self.pick(6) + 1] if self.alt else ".idm()")
        if k == "loop":
            return f"{lab}loop {{ tick(); {self.stmts(c[0]['c'])}}}"
        if k == "while":
            return f"{lab}while {self.cond(e)} {{ tick(); {self.stmts(c[-1]['c'])}}}"
        if k == "for":
            return f"{lab}for _ in {self.expr(c[0])} {{ tick(); {self.stmts(c[1]['c'])}}}"
        if k == "iter":
            return "it()"
        if k == "break":
            return "break" + (" " + s if s else "") + self.opt(c)
        if k == "cont":
            return "continue" + (" " + s if s else "")
        if k == "ret":
            return "return" + self.opt(c)
        if k == "mac":
            x = (self.expr(c[0]) if c else "") if s in MARKERS else str(n) if s == "val" else '"x"'
            if s == "val" and self.alt:        # the path is not the marker's name
                s = ["val", "val", "pm::marker", "pm::m1"][self.pick(4)]
            return s + ["!({})", "!({})", "! {{ {} }}", "![{}]"][self.pick(4) if self.alt else 0].format(x)
        if k == "try":
            x = self.expr(c[0])
            if c[0]["k"] in BLOCKLIKE and c[0]["k"] != "block":
                x = "(" + x + ")"
            return x + "?"
        if k == "fal":
            return f"f::<{n}>()"
        if k == "falfal":
            return "ff()"
        if k == "idf":
            x = self.expr(c[0])
            f = ["id({})", "({},).0", "Wr {{ f: {} }}.f", "(xx(1), {}).1", "Some({}).unwrap()", "(*Box::new({}))", "id::<_>(id({}))", "(|x| x)({})", "[Some({})][0].take().unwrap()",
                 "({{ let y; y = {}; id(y) }})", "({{ let (y, _z) = ({}, 0); id(y) }})", "Option::take(&mut Some({})).unwrap()", "({}..).start"]
            if x[0] in "#'" or c[0]["k"] in ("ret", "break", "cont", "clos", "try"):
                f.pop()             # an attribute, label or jump would take in the range
            return f[self.pick(len(f)) if self.alt else 0].format(x)
        if k == "none":
            return ["None", "Option::None", "std::option::Option::None", "core::option::Option::None"][
                [0, 0, 2, 3][self.pick(4)] if self.alt else 0]
        if k == "errc":
            p = ["Err", "std::result::Result::Err", "core::result::Result::Err"][self.pick(3) if self.alt else 0]
            return f"{p}(e::<{n}>())"
        if k == "errw":
            return f"Err({self.expr(c[0])})"
        if k == "okc":
            return f"Ok{'::<' + s + '>' if s else ''}({self.expr(c[0])})"
        if k == "somec":
            return f"Some({self.expr(c[0])})"
        if k == "clos":
            b = self.expr(c[0])
            return ("move " if self.alt and self.pick(3) == 0 else "") + "|| " + b
        if k == "async":
            return "async " + ("move " if self.alt and self.pick(3) == 0 else "") + self.block(c[0]["c"])
        if k == "call":
            return self.expr(c[0]) + "()"
        if k == "bo":
            return f"bo({self.expr(c[0])})"
        if k == "tryb":
            return f"{{ let t: Result<L<6>, E<5>> = try {self.block(c[0]['c'])}; t }}"
        if k == "see":
            x = self.expr(c[0])
            if self.alt and not c[0]["m"] and not c[0]["a"]:
                x = [x, x, f"({x},).0", f"Wr {{ f: {x} }}.f", f"id({x})", f"(xx(1), {x}).1", f"Some({x}).unwrap()"][self.pick(7)]
            return f"see({x})"
        if k == "var":
            return f"v{n}"
        if k == "die":
            return "die()"
        if k == "icall":
            return "item()"
        raise ValueError(k)

    def fn(self, p, name):
        x = self.fn1(p, name)
        return self.whole(x, name)

    def fn1(self, p, name):
        an = self.attrs(p)
        ret, body = RET[p["s"]], self.block(p["c"][0]["c"])
        w = self.pick(16) if self.alt else 0
        if self.alt and p["s"] == "res" and self.pick(2):
            ret = " -> " + RES[self.pick(6)]
        if self.alt and p["s"] == "resn":
            ret = " -> " + RESN[self.pick(7)]
            if "u8>" in ret:
                w = 14
        call = lambda e: f" fn {name}(){ret} {{ {e} }}"
        pre, post = "", ""
        if self.alt and self.pick(2):
            i = self.pick(2)
            pre, post = FNATTR[i][self.pick(5)], FNATTR[1 - i][self.pick(5)] + FNATTR[2][self.pick(4)]
        # what an attribute macro leaves behind: the same attributes and signature; the same item where it has nothing to do
        same = bool(an) and p["m"] in ("E", "E0") and not self.ta(p) and not marked(p["c"][0])

        def item(attrs, sig, vis=""):
            a2 = attrs + post
            if not an or p["m"][0] == "X":
                return f"{pre}{an}{a2}{sig} {body}"
            k = "keep::all" if same else "keep::sig"
            return f"{pre}{an}#[{k}({pre}{a2}{sig}{' ' + body if same else ''})] {a2}{sig} {body}"
        if w == 8:
            return item("", f"pub(crate) fn {name}(){ret}")
        if w == 9:
            return "impl Z { " + item("", f"pub fn {name}(&self){ret}") + " }" + call(f"Z.{name}()")
        if w == 10:
            return item("", f"async fn {name}_a(){ret}") + call(f"bo({name}_a())")
        if w == 11 and ret:
            return (item("", f"fn {name}_g<'a, T: ?Sized + Debug, const N: usize>(_t: &'a T, mut _u: [u8; N]){ret} where T: Display,")
                    + call(f"{name}_g::<str, 2>(\"\", [1, 2])"))
        if w == 12:
            return item("", f"unsafe extern \"C-unwind\" fn {name}_u(){ret}") + call(f"unsafe {{ {name}_u() }}")
        if w == 14:
            own = "use super::ri::Result; " if "u8>" in ret else ""
            return f"mod {name}_m {{ use super::*; {own}" + item("", f"pub(super) fn {name}(){ret}") + f" }} use {name}_m::{name};"
        if w == 15:
            return "trait T" + name + " { " + item("", f"fn {name}(){ret}") + " } impl T" + name + " for Z {}" + call(f"<Z as T{name}>::{name}()")
        return item("", f"fn {name}(){ret}")

    def ta(self, p):
        return self.fam.get("ta") and p["s"] in ("impl", "res", "resn")


# an annotation (#) on anything but a function, a statement or an expression
ITEMS = ["# struct S;", "# struct S { f: u8 }", "# enum F { A, B }", "# union U { a: u8 }", "# const C: u8 = if true { 1 } else { 2 };", "# static D: u8 = 1;",
         "# type F = u8;", "# trait G {}", "# trait G { fn f(&self) -> u8 { if b() { 1 } else { 2 } } }", "# impl Z { fn f(&self) -> u8 { if b() { 1 } else { 2 } } }",
         "# mod mm {}", "# use std::fmt;", "# extern \"C\" {}", "# extern crate std as ss;", "# macro_rules! mm { () => {} }", "trait G { # fn f() -> impl Debug; }",
         "trait G { # type T; }", "struct S; impl S { # const A: u8 = 1; }", "trait G { # const A: u8 = 1; }", "extern \"C\" { # fn ff(); }", "extern \"C\" { # static F: u8; }",
         "# impl Clone for Z { fn clone(&self) -> Z { loop { break Z; } } }", "# const fn cf();"]

FNATTR = [["", "", "#[must_use] ", "#[must_use = \"x\"] ", "#[doc(hidden)] ", "#[cold] "], ["", "#[deprecated] ", "#[allow(unused)] ", "#[deprecated(note = \"x\")] ", "#[doc = \"note\"] "],
          ["", "#[inline(never)] ", "#[deny(unused_must_use)] ", "#[inline] "]]


def closed(e, labels=(), lets=None):
    """no label or variable of the surroundings occurs"""
    if lets is None:
        lets = set()
        todo = [e]
        while todo:
            x = todo.pop()
            todo += x["c"]
            if x["k"] == "let":
                lets.add(x["n"])
    if e["k"] == "var" and e["n"] not in lets or e["k"] in ("break", "cont") and e["s"] and e["s"] not in labels:
        return False
    inner = labels + (e["s"],) if e["s"].startswith("'") and e["k"] not in ("break", "cont") else labels
    return all(closed(c, labels if e["k"] in ("for", "while") and i == 0 and len(e["c"]) == 2 else inner, lets) for i, c in enumerate(e["c"]))


def marked(e):
    """does the expansion have anything to do in here?"""
    return bool(e["m"] or e["a"]) or (e["k"] == "item" and e["s"] == "nested") or any(marked(c) for c in e["c"])


PRELUDE = r'''
#![feature(stmt_expr_attributes, proc_macro_hygiene, try_blocks)]
#![allow(warnings)]
extern crate auto_enums;
use auto_enums::auto_enum;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug, Display};

thread_local! {
    static BITS: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static POS: Cell<usize> = Cell::new(0);
    static FUEL: Cell<usize> = Cell::new(0);
    static EV: RefCell<String> = RefCell::new(String::new());
}
fn ev(s: &str) { EV.with(|e| { let mut e = e.borrow_mut(); e.push_str(s); e.push(' '); }) }
struct Fuel;
fn next() -> usize {
    BITS.with(|b| { let p = POS.with(|p| { let x = p.get(); p.set(x + 1); x }); let b = b.borrow();
        if p < b.len() { b[p] } else { drop(b); panic!("no decision left") } })
}
fn b() -> bool { let x = next(); ev(&format!("b{}", x)); x == 1 }
fn m(_n: usize) -> usize { let x = next(); ev(&format!("m{}", x)); x }
struct L<const N: usize>;
struct E<const N: usize>;
impl<const N: usize> Debug for L<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "L{}", N) } }
impl<const N: usize> Display for L<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "L{}", N) } }
impl<const N: usize> Debug for E<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "E{}", N) } }
fn l<const N: usize>() -> L<N> { ev(&format!("L{}", N)); L }
fn e<const N: usize>() -> E<N> { ev(&format!("E{}", N)); E }
fn f<const N: usize>() -> Result<L<N>, E<N>> { let x = next(); if x == 1 { ev(&format!("f{}+", N)); Ok(L) } else { ev(&format!("f{}-", N)); Err(E) } }
fn it() -> std::ops::Range<usize> { ev("I"); 0..2 }
fn tick() { FUEL.with(|f| { if f.get() == 0 { std::panic::panic_any(Fuel) } f.set(f.get() - 1); }); ev("t"); }
thread_local! { static SEEN: RefCell<std::collections::BTreeSet<&'static str>> = RefCell::new(Default::default()); }
fn see<T: Debug>(t: T) { let s = format!("s{:?}", t); ev(&s); SEEN.with(|x| x.borrow_mut().insert(std::any::type_name::<T>())); }
fn tn<T, F: Fn() -> T>(_: F) -> &'static str { std::any::type_name::<T>() }
fn die() -> ! { ev("die"); panic!("die") }
macro_rules! val { ($n:tt) => { l::<$n>() } }
mod pm { macro_rules! pm { ($n:tt) => { crate::l::<$n>() } } #[allow(unused)] pub(crate) use pm as marker; #[allow(unused)] pub(crate) use pm as m1; }
struct Wr<T> { f: T }
type R2<T, E> = Result<T, E>;
mod ri {
    pub trait Res { type R; }
    impl<T, E, X> Res for (T, E, X) { type R = ::std::result::Result<T, E>; }
    pub type Result<T, E, X = ()> = <(T, E, X) as Res>::R;
    pub mod result { pub type Result<T, E> = ::std::result::Result<T, E>; }
    pub mod std { pub mod result { pub type Result<T, E> = ::std::result::Result<T, E>; } }
}
struct Z;
fn id<T>(t: T) -> T { t }
fn xx(n: usize) -> usize { n }
fn ff() -> Result<Result<L<4>, E<3>>, E<4>> { let x = next(); ev(&format!("F{}", x)); match x { 0 => Err(E), 1 => Ok(Err(E)), _ => Ok(Ok(L)) } }
trait Idm: Sized {
    fn idm(self) -> Self { ev("i"); self }
    fn idt<T: Default>(self) -> Self { let _ = T::default(); self.idm() }
    fn ida(self, _: usize, _: u8) -> Self { self.idm() }
    fn idg<T, const N: usize>(self, _: impl Fn(u8) -> u8) -> Self { self.idm() }
}
impl<T> Idm for T {}
fn bo<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(x) => x, std::task::Poll::Pending => panic!("pending") }
}
fn run(p: fn() -> String, bits: &[usize]) -> (String, String) {
    BITS.with(|b| *b.borrow_mut() = bits.to_vec()); POS.with(|p| p.set(0)); FUEL.with(|f| f.set(3));
    EV.with(|e| e.borrow_mut().clear());
    let r = std::panic::catch_unwind(p);
    let o = match r { Ok(s) => format!("V{}", s), Err(x) => if x.is::<Fuel>() { "F".into() } else { "P".into() } };
    let used = POS.with(|p| p.get());
    let o = if used != bits.len() { format!("{}#{}", o, used) } else { o };
    (o, EV.with(|e| e.borrow().trim_end().to_string()))
}
fn drive(table: &[(&str, fn() -> String, &'static str)]) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let idx: std::collections::HashMap<&str, (fn() -> String, &'static str)> = table.iter().map(|x| (x.0, (x.1, x.2))).collect();
    let out = std::io::stdout(); let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap(); let mut it = line.split('\t');
        let (id, bits) = (it.next().unwrap(), it.next().unwrap());
        let (p, ty) = match idx.get(id) { Some(p) => *p, None => continue };
        SEEN.with(|x| x.borrow_mut().clear());
        let bits: Vec<usize> = bits.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (o, e) = run(p, &bits);
        let seen = SEEN.with(|x| x.borrow().iter().cloned().collect::<Vec<_>>().join("|"));
        writeln!(out, "{}\t{}\t{}\t{}\t{}\t{}", id, line.split('\t').nth(1).unwrap(), o, e, ty, seen).unwrap();
    }
}
'''


def expected(run):
    o = {"val": "V" + run["v"], "ret": "V" + run["v"], "panic": "P", "fuel": "F"}[run["o"]]
    return o, " ".join(run["e"])


def ty_str(t, wv):
    """the type of the specification, alternatives as a sorted list"""
    h = t["h"]
    if h == "R":
        return f"Result<{head_str(t['ok'], wv)},{head_str(t['er'], wv)}>"
    if h == "O":
        return f"Option<{head_str(t['ok'], wv)}>"
    return head_str(h, wv)


def head_str(h, wv):
    if h == "~":
        return "?"        # left to the context
    if h == "!":
        return "()"
    if h[0] in "LE" and h[1:].isdigit():
        return f"{h[0]}<{h[1:]}>"
    if h == "UI":
        return "U<L<7>,L<8>,L<9>>"
    if h[0] == "U":
        alts = {i: x for w, i, x in wv if w == h[1:]}
        return "U<" + ",".join(sorted(head_str(x, wv) for x in alts.values())) + ">"
    return h


KNOWN = {"L", "E", "Result", "Option", "Box", "Wr"}


def norm_ty(s):
    """a type name of rustc in the same form"""
    import re
    toks = re.findall(r"[<>,]|[^<>,]+", s.replace(" ", ""))
    pos = 0

    def ty():
        nonlocal pos
        name = toks[pos].split("::")[-1]
        pos += 1
        args = []
        if pos < len(toks) and toks[pos] == "<":
            pos += 1
            while toks[pos] != ">":
                if toks[pos] == ",":
                    pos += 1
                else:
                    args.append(ty())
            pos += 1
        # whatever is not a type of the program or of std is the enum of an annotation
        if args and name not in KNOWN:
            name, args = "U", sorted(args)
        return name + ("<" + ",".join(args) + ">" if args else "")
    return ty()


def ty_match(want, have):
    import re
    return re.fullmatch(re.escape(want).replace("\\?", ".*"), have) is not None
