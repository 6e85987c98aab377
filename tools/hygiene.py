"""Conformance of the real macros with the Hygiene specification (C20): the same code at every site."""
import json, os, re, subprocess
from vlib import *
import derive, probes

INV = ["SameEverywhere", "NothingFromSite", "Telling", "NoStdTelling"]
FEATS = "#![feature(fn_traits, unboxed_closures, coroutine_trait, trusted_len, exact_size_is_empty, stmt_expr_attributes, proc_macro_hygiene)]\n"


# ---------------------------------------------------------------- what is declared around the code

def declarations(names):
    """names: [{ns, name}] of the specification"""
    by = {}
    for x in names:
        by.setdefault(x["ns"], set()).add(x["name"])
    ty, va, o = by.get("type", set()), by.get("value", set()), []
    for x in sorted(by.get("macro", ())):
        o.append(f"#[allow(unused_macros)] macro_rules! {x} {{ ($($t:tt)*) => {{ ::core::compile_error!(\"{x} of the site\") }} }}")
    for x in sorted(ty):
        if x in va:
            o.append(f"pub struct {x};")
        elif x[0].islower():
            o.append(f"pub mod {x} {{}}")
        elif x in TRAITS:
            o.append(f"pub trait {x} {{}}")
        else:
            o.append(f"pub struct {x};")
    for x in sorted(va - ty):
        o.append(f"pub fn {x}() {{}}")
    m = sorted(by.get("method", ()))
    if m:
        rc = ["&mut self", "&self", "self"]
        o.append("pub trait OfTheSite { " + " ".join(f"fn {x}({rc[i % 3]}) -> u8{' where Self: ::core::marker::Sized' if i % 3 == 2 else ''} {{ 0 }}" for i, x in enumerate(m)) + " } impl<OfAll: ?::core::marker::Sized> OfTheSite for OfAll {}")
    return " ".join(o)


TRAITS = set("""Iterator DoubleEndedIterator ExactSizeIterator FusedIterator TrustedLen IntoIterator FromIterator Extend Future Fn FnMut FnOnce Sized Send Sync Unpin Drop Copy Clone
Default From Into AsRef AsMut Deref DerefMut Index IndexMut RangeBounds Debug Display Error Read BufRead Write Seek Stream Sink Coroutine Serialize Serializer Consumer PartialEq Eq Hash""".split())


# ---------------------------------------------------------------- the code

IT = "impl ::core::iter::Iterator<Item = u8>"
DB = "impl ::core::fmt::Debug"
RS = f"::core::result::Result<u8, {DB}>"
OK = "::core::result::Result::Ok"
M3 = "match @n { 1 => ::sup::a(1), 2 => ::sup::b(2), _ => ::sup::c(3) }"
FN = "@v fn g@G(@S@n: u8) -> "
A = "#[auto_enum(Iterator)] "
E = "#[auto_enum(Debug)] "

# form: (item, how its result is used)
# (a value after a label does not start with `::`, which syn takes for a labelled loop)
FORMS = {
    "match": (A + FN + IT + " { " + M3 + " }", "sum"),
    "elseif": (A + FN + IT + " { if @n == 1 { ::sup::a(1) } else if @n == 2 { ::sup::b(2) } else { ::sup::c(3) } }", "sum"),
    "letm": (FN + "u8 { " + A + "let @x = " + M3 + "; ::sup::sum(@x) }", ""),
    "expr": (FN + "u8 { let @x = " + A + M3 + "; ::sup::sum(@x) }", ""),
    "loop": (FN + "u8 { " + A + "let @x = loop { if @n == 1 { break ::sup::a(1); } if @n == 2 { break ::sup::b(2); } break ::sup::c(3); }; ::sup::sum(@x) }", ""),
    "label": (FN + "u8 { let mut @x = @n; " + A + "let @y = 'lp: loop { loop { if @x == 1 { let r = ::sup::a(@n); break 'lp r; } break; } if @x == 2 { break ::sup::b(@n); } @x -= 1; if @x == 2 { break ::sup::c(@n); } }; ::sup::sum(@y) }", ""),
    "ret": (A + FN + IT + " { if @n == 1 { return ::sup::a(1); } if @n == 2 { return ::sup::b(2); } match @n { 9 => ::sup::a(9), _ => ::sup::c(3) } }", "sum"),
    "try": (E + FN + RS + " { let @x = ::sup::e1(@n)?; let @y = ::sup::e2(@x)?; " + OK + "(@y) }", "res"),
    "clret": (FN + "u8 { " + A + "let @x = |@n: u8| { if @n == 1 { return ::sup::a(1); } if @n == 2 { return ::sup::b(2); } match @n { 3 => ::sup::c(3), _ => ::sup::a(9) } }; ::sup::sum(@x(@n)) }", ""),
    "cltry": (FN + "u8 { " + E + "let @x = |@n: u8| { ::sup::e1(@n)?; ::sup::e2(@n)?; " + OK + "(3u8) }; ::sup::res(@x(@n)) }", ""),
    "nested": (A + FN + IT + " { match @n { 1 => ::sup::a(1), #[nested] _ => if @n == 2 { ::sup::b(2) } else { ::sup::c(3) } } }", "sum"),
    "never": (FN + "u8 { " + A + "let @x = match @n { 1 => ::sup::a(1), 2 => ::sup::b(2), 3 => ::core::panic!(), #[never] 4 => { return 4 } _ => ::core::unreachable!() }; ::sup::sum(@x) }", ""),
    "marker": (A + FN + IT + " { if @n == 1 { return marker!(::sup::a(1)); } let @x = if @n == 2 { marker!(::sup::b(2)) } else { marker!(::sup::c(3)) }; @x }", "sum"),
    "cmarker": ("#[auto_enum(marker = m, Iterator)] " + FN + IT + " { if @n == 1 { return m!(::sup::a(1)); } match @n { 2 => ::sup::b(2), _ => m!(::sup::c(3)) } }", "sum"),
    "child": ("#[auto_enum] " + FN + "u8 { " + A + "let @x = " + M3 + "; if @n == 0 { return 9; } ::sup::sum(@x) }", ""),
    "transp": ("#[auto_enum(Transpose, Debug)] " + FN + f"::core::option::Option<{DB}> {{ match @n {{ 1 => ::core::option::Option::Some(1u8), _ => ::core::option::Option::Some(::sup::W(2)) }}.transpose() }}", "some"),
    "multi": ("#[auto_enum(Clone, Iterator, Debug)] " + FN + IT + " + ::core::clone::Clone + ::core::fmt::Debug { match @n { 1 => ::sup::a(1), _ => ::sup::b(2) } }", "sum"),
    "fut": ("#[auto_enum(Future)] " + FN + "impl ::sup::Future<Output = u8> { match @n { 1 => ::sup::fa(1), _ => ::sup::fb(2) } }", "now"),
    # fragments: (parameters of the macro, its body, arguments, use)
    "f_branch": ("$n:ident, $p:expr, $q:expr", A + f"pub fn g($n: u8) -> {IT} {{ match $n {{ 1 => $p, 2 => $q, _ => ::sup::c(3) }} }}", "@n, ::sup::a(1), ::sup::b(2)", "sum"),
    "f_tail": ("$n:ident, $e:expr", A + f"pub fn g($n: u8) -> {IT} {{ $e }}", "@n, " + M3, "sum"),
    "f_let": ("$n:ident, $e:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = $e; ::sup::sum(x) }", "@n, " + M3, ""),
    "f_closure": ("$n:ident, $e:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = $e; ::sup::sum(x($n)) }", "@n, |@n: u8| " + M3, ""),
    "f_loop": ("$n:ident, $e:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = $e; ::sup::sum(x) }", "@n, loop { if @n == 1 { break ::sup::a(1); } if @n == 2 { break ::sup::b(2); } break ::sup::c(3); }", ""),
    "f_ty": ("$n:ident, $t:ty", A + "pub fn g($n: u8) -> $t { if $n == 1 { return ::sup::a(1); } match $n { 2 => ::sup::b(2), _ => ::sup::c(3) } }", f"@n, {IT}", "sum"),
    "f_resty": ("$n:ident, $t:ty", E + f"pub fn g($n: u8) -> $t {{ ::sup::e1($n)?; ::sup::e2($n)?; {OK}($n) }}", f"@n, {RS}", "res"),
    "f_errty": ("$n:ident, $t:ty", E + f"pub fn g($n: u8) -> ::core::result::Result<u8, $t> {{ ::sup::e1($n)?; ::sup::e2($n)?; {OK}($n) }}", f"@n, {DB}", "res"),
    "f_block": ("$n:ident, $b:block", A + f"pub fn g($n: u8) -> {IT} $b", "@n, { " + M3 + " }", "sum"),
    "f_else": ("$n:ident, $p:block $q:block $r:block", A + f"pub fn g($n: u8) -> {IT} {{ if $n == 1 $p else if $n == 2 $q else $r }}", "@n, { ::sup::a(1) } { ::sup::b(2) } { ::sup::c(3) }", "sum"),
    "f_pat": ("$n:ident, $p:pat, $q:pat", A + f"pub fn g($n: u8) -> {IT} {{ match $n {{ $p => ::sup::a(1), $q => ::sup::b(2), _ => ::sup::c(3) }} }}", "@n, 1, 2", "sum"),
    "f_panic": ("$n:ident, $e:expr", A + f"pub fn g($n: u8) -> {IT} {{ match $n {{ 1 => ::sup::a(1), 2 => ::sup::b(2), 3 => $e, _ => {{ $e }} }} }}", "@n, ::core::panic!()", "sum"),
    "f_return": ("$n:ident, $e:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = match $n { 1 => ::sup::a(1), 2 => ::sup::b(2), _ => $e }; ::sup::sum(x) }", "@n, return 9", ""),
    "f_never": ("$n:ident, $e:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = match $n { 1 => ::sup::a(1), 2 => ::sup::b(2), _ => $e }; ::sup::sum(x) }", "@n, #[never] { if @n > 9 { return 9 } else { return 8 } }", ""),
    "f_marker": ("$n:ident, $e:expr, $f:expr", A + f"pub fn g($n: u8) -> {IT} {{ if $n == 1 {{ return $e; }} match $n {{ 2 => $f, _ => ::sup::c(3) }} }}", "@n, marker!(::sup::a(1)), marker!(::sup::b(2))", "sum"),
    "f_nested": ("$n:ident, $e:expr", A + f"pub fn g($n: u8) -> {IT} {{ match $n {{ 1 => ::sup::a(1), #[nested] _ => $e }} }}", "@n, if @n == 2 { ::sup::b(2) } else { ::sup::c(3) }", "sum"),
    "f_nestin": ("$n:ident, $e:expr", A + f"pub fn g($n: u8) -> {IT} {{ match $n {{ 1 => ::sup::a(1), _ => $e }} }}", "@n, #[nested] match @n { 2 => ::sup::b(2), _ => ::sup::c(3) }", "sum"),
    "f_ret": ("$n:ident, $e:expr, $f:expr", A + f"pub fn g($n: u8) -> {IT} {{ if $n == 1 {{ return $e; }} match $n {{ 2 => return $f, _ => ::sup::c(3) }} }}", "@n, ::sup::a(1), ::sup::b(2)", "sum"),
    "f_qop": ("$n:ident, $e:expr, $f:expr", E + f"pub fn g($n: u8) -> {RS} {{ let x = $e?; $f?; {OK}(x) }}", "@n, ::sup::e1(@n), ::sup::e2(@n)", "res"),
    "f_q": ("$n:ident, $e:expr, $f:expr", E + f"pub fn g($n: u8) -> {RS} {{ let x = $e; $f; {OK}(x) }}", "@n, ::sup::e1(@n)?, ::sup::e2(@n)?", "res"),
    "f_break": ("$n:ident, $e:expr, $f:expr", "pub fn g($n: u8) -> u8 { " + A + "let x = loop { if $n == 1 { break $e; } if $n == 2 { $f } break ::sup::c(3); }; ::sup::sum(x) }", "@n, ::sup::a(1), break ::sup::b(2)", ""),
    "f_item": ("$i:item", A + "$i", f"pub fn g(@n: u8) -> {IT} {{ {M3} }}", "sum"),
    "f_ident": ("$g:ident $n:ident $m:ident $t:ident", f"#[auto_enum($t, marker = $m)] pub fn $g($n: u8) -> impl ::core::iter::$t<Item = u8> {{ if $n == 1 {{ return $m!(::sup::a(1)); }} match $n {{ 2 => $m!(::sup::b(2)), _ => ::sup::c(3) }} }}",
                "g @n mark Iterator", "sum"),
}
# refused code: as FORMS, with one exit
FORMS["r_one"] = (E + FN + DB + " { ::sup::a(@n) }", "num")
FORMS["r_frag"] = ("$n:ident, $e:expr", E + f"pub fn g($n: u8) -> {DB} {{ $e }}", "@n, { let @x = match @n { 1 => 1, _ => 2u8 }; @x }", "num")
FORMS["r_block"] = ("$n:ident, $b:block", E + f"pub fn g($n: u8) -> {DB} {{ if $n == 1 $b else {{ ::core::panic!() }} }}", "@n, { ::sup::a(@n) }", "num")
FORMS["r_type"] = ("$n:ident, $t:ty", A + "pub fn g($n: u8) -> $t { ::sup::a($n) }", f"@n, {IT}", "sum")
WHY = {"conflict": lambda m: (m.get("code") or {}).get("code") == "E0119", "few": lambda m: "two or more" in m["message"]}
LOCALS = {"plain": ("n", "x", "y"), "letters": ("val", "err", "e"), "std": ("core", "iter", "result"), "assoc": ("item", "output", "error"), "raw": ("r#fn", "r#match", "r#loop")}
LETTERS = "T U F R S P C D H I K V W X Acc CB St B E A M N".split()


def enum_names(nm, i):
    if nm == "letters":                # every common name is a parameter, one of them the enum
        ps = [x for k, x in enumerate(LETTERS) if k != i % len(LETTERS)]
        return LETTERS[i % len(LETTERS)], ps, ["V" + x for x in ps]
    return {"plain": ("E", ["A", "B"], ["VA", "VB"]),
            "std": [("Option", ["Result", "Iterator"], ["Some", "None"]), ("Result", ["Ok", "Err"], ["Ok", "Err"]), ("Iterator", ["Pin", "Poll"], ["Ready", "Pending"]), ("Fn", ["Send", "Sized"], ["Send", "Sized"])][i % 4],
            # (variants named like an associated type of a derived trait make rustc's own `Self::Item` ambiguous)
            "assoc": [("Item", ["Output", "Error"], ["VItem", "VReturn"]), ("Output", ["Item", "Yield"], ["VOutput", "VError"])][i % 2],
            # (the only raw names in camel case: Self alone, which cannot be raw)
            "raw": ("r#Struct", ["r#Fn", "B"], ["r#Match", "r#Dyn"])}[nm]


def render(c, i, tab):
    """one module; chk() gives the outcome"""
    s, th = c["site"], c["th"]
    here, item, call = "", "", ""
    if th["n"] not in FORMS:
        n, ps, vs = enum_names(s["nm"], i)
        l = sorted(set(c["up"]) - {th["n"]}) + [th["n"]] if th["n"] in derive.MISS else [th["n"]]
        item = f"#[enum_derive({', '.join(l)})] pub enum {n}<{', '.join(ps)}> {{ " + ", ".join(f"{v}({p})" for v, p in zip(vs, ps)) + " }"
        f = "::probes::Pr<::probes::Full>"
        call = f"::probes::row::<{n}<{', '.join([f] * len(ps))}>>()"
        if th["k"] == "refused":
            a = ", ".join(ps)
            item += {"drop": f" impl<{a}> ::core::ops::Drop for {n}<{a}> {{ fn drop(&mut self) {{}} }}", "unpin": f" impl<{a}> ::core::marker::Unpin for {n}<{a}> {{}}"}[th["x"]]
            call = "::sup::show(&[])"
        use, selfy = "enum_derive", False
        into = n
    else:
        f = FORMS[th["n"]]
        lc = LOCALS[s["nm"]]
        put = lambda t: t.replace("@n", lc[0]).replace("@x", lc[1]).replace("@y", lc[2])
        u = f[-1]
        ks = range(1, 2 if th["k"] == "refused" else len(c["out"][1]) + 1)
        how = lambda g: "::sup::show(&[" + ", ".join(f"::sup::{u}({g}({k}))" if u else f"{g}({k})" for k in ks) + "])"
        selfy = len(f) == 2 and s["place"] in ("method", "traitm", "generic")
        if len(f) == 2:
            fill = lambda v, g, sl: put(f[0]).replace("@v", v).replace("@G", g).replace("@S", sl)
            item = fill("pub", "", "")
        else:
            item = f"macro_rules! mk {{ ({f[0]}) => {{ {put(f[1])} }} }} mk! {{ {put(f[2])} }}"
        call = how("g")
        use, into = "auto_enum", "g"
    pl = s["place"]
    imp = f"use ::auto_enums::{use}; "
    O = "::sup::Out"
    if selfy:
        if pl == "method":
            here = "pub struct Myself; impl Myself { " + fill("pub", "", "&self, ") + " } pub fn chk() -> " + O + " { let me = Myself; " + how("me.g") + " }"
        elif pl == "traitm":
            here = "pub trait Mine { " + fill("", "", "&self, ") + " } pub struct Myself; impl Mine for Myself {} pub fn chk() -> " + O + " { let me = Myself; " + how("me.g") + " }"
        else:
            here = fill("pub", "<'a, T: ?::core::marker::Sized + 'a, const N: usize>", "_: &'a T, ") + " pub fn chk() -> " + O + " { " + re.sub(r"\bg\(", "g::<str, 3>(\"\", ", call) + " }"
    else:
        B = f"{item} {call}"
        here = {
            "module": f"{item} pub fn chk() -> {O} {{ {call} }}",
            "submodule": f"pub mod deep {{ pub mod deeper {{ #[allow(unused_imports)] use super::super::*; {imp} {item} }} }} pub fn chk() -> {O} {{ use self::deep::deeper::{into}; {call} }}",
            "fn": f"pub fn chk() -> {O} {{ {B} }}",
            "block": f"pub fn chk() -> {O} {{ let r = {{ {B} }}; r }}",
            "method": f"pub struct Myself; impl Myself {{ pub fn me(&self) -> {O} {{ {B} }} }} pub fn chk() -> {O} {{ Myself.me() }}",
            "traitm": f"pub trait Mine {{ fn me(&self) -> {O} {{ {B} }} }} impl Mine for u8 {{}} pub fn chk() -> {O} {{ Mine::me(&0u8) }}",
            "assoc": f"pub struct Myself; impl Myself {{ pub const ME: fn() -> {O} = {{ fn me() -> {O} {{ {B} }} me }}; }} pub fn chk() -> {O} {{ (Myself::ME)() }}",
            "generic": f"pub fn me<'a, T: ?::core::marker::Sized + 'a, const N: usize>(_: &'a T) -> {O} {{ {B} }} pub fn chk() -> {O} {{ me::<str, 3>(\"\") }}",
            "closure": f"pub fn chk() -> {O} {{ let me = || {{ {B} }}; me() }}",
            "const": f"pub const ME: fn() -> {O} = {{ fn me() -> {O} {{ {B} }} me }}; pub fn chk() -> {O} {{ ME() }}",
            "async": f"pub fn chk() -> {O} {{ ::sup::now(async {{ {B} }}) }}",
            "unsafe": f"pub unsafe fn me() -> {O} {{ {B} }} pub fn chk() -> {O} {{ unsafe {{ me() }} }}",
            "macro": f"macro_rules! here {{ ($($t:tt)*) => {{ $($t)* }} }} here! {{ {item} }} pub fn chk() -> {O} {{ {call} }}",
        }[pl]
    if pl == "submodule" and not selfy:
        imp = ""
    dec = declarations(c["decls"])
    if dec and (s["nm"] in ("std", "assoc", "letters") or i % 2):
        c["src"] = f"{dec} pub mod inn {{ #[allow(unused_imports)] use super::*; {imp}{here} }} pub use self::inn::chk;"
    else:
        c["src"] = f"{dec} {imp}{here}"
    if th["k"] == "code":
        c["want"] = str(list(c["out"][1]))


# ---------------------------------------------------------------- compiling

def compile_group(ctx, kit, w, sup, key, cases, tag):
    """one library per kind of crate, one module per case; {id: output}, {id: [messages]}"""
    ed, lib = key
    d = ctx.dir("rs-hygiene")
    errs, cases = {}, list(cases)
    ext = dict(kit.externs("all", w), sup=sup)
    for attempt in range(8):
        path = os.path.join(d, f"{tag}.rs")
        head = ("" if lib == "std" else "#![no_std]\n") + FEATS + ("extern crate std;\n" if lib == "ext" else "") + probes.externs(w)
        lines, at = head.splitlines(), {}
        for c in cases:
            lines.append(f"#[{'deny(warnings)] #[allow(dead_code, unused_variables)' if c['site']['lint'] else 'allow(warnings)'}] pub mod {c['id']} {{ {c['src']} }}")
            at[len(lines)] = c["id"]
        lines.append("pub const TABLE: &[(&str, fn() -> ::sup::Out)] = &[" + ", ".join(f'("{c["id"]}", {c["id"]}::chk)' for c in cases) + "];")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        rl = os.path.join(d, f"lib{tag}.rlib")
        rc, ms = rustc(path, rl, ext, kit.ldirs, crate_type="lib", crate_name=tag, edition=ed, cap=False)
        if rc == 0:
            break
        hit, loose = {}, []
        for m in ms:
            ls = [at[x] for x in root_lines(m, path) if x in at]
            y = re.search(r"(?:in crate|module) `(c\d+)`|`(c\d+)::", m["message"])
            if ls:
                hit.setdefault(ls[0], []).append(m["message"])
            elif y:
                hit.setdefault(next(g for g in y.groups() if g), []).append(m["message"])
            elif not re.match(r"aborting due|For more|Some errors", m["message"]):
                loose.append(m["message"])
        prim = {k: v for k, v in hit.items() if any("`chk`" not in x for x in v)} or hit
        if not hit:
            raise ToolError(f"unattributed compile failure in {tag}: " + "; ".join(loose[:5]))
        for k, v in prim.items():
            errs.setdefault(k, []).extend(v)
        cases = [c for c in cases if c["id"] not in errs]
    else:
        raise ToolError(f"{tag}: too many rounds of compile errors: " + str(list(errs.items())[-3:])[:1500])
    main = os.path.join(d, f"m{tag}.rs")
    with open(main, "w") as f:
        f.write(f'fn main() {{ for (i, f) in {tag}::TABLE {{ println!("{{}}\\t{{}}", i, f()); }} }}')
    exe = os.path.join(d, "m" + tag)
    rc, ms = rustc(main, exe, {tag: rl}, kit.ldirs + [d, os.path.dirname(kit.rlib[w])])
    if rc != 0:
        raise ToolError("the driver does not compile: " + "; ".join(m["message"] for m in ms[:3]))
    p = subprocess.run([exe], capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError(f"{tag}: the program stopped: " + p.stderr[-500:])
    return dict(x.split("\t", 1) for x in p.stdout.splitlines() if "\t" in x), errs


def refused_group(ctx, kit, w, sup, key, cases, tag, alone=False):
    """{id: None or what is wrong}; a case that is not refused is compiled again alone"""
    ed, lib = key
    d = ctx.dir("rs-hygiene")
    path = os.path.join(d, f"{tag}.rs")
    head = ("" if lib == "std" else "#![no_std]\n") + FEATS + ("extern crate std;\n" if lib == "ext" else "") + probes.externs(w)
    lines, at = head.splitlines(), {}
    for c in cases:
        lines.append(f"#[allow(warnings)] pub mod {c['id']} {{ {c['src']} }}")
        at[len(lines)] = c["id"]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, ms = rustc(path, os.path.join(d, f"lib{tag}.rmeta"), dict(kit.externs("all", w), sup=sup), kit.ldirs, emit="metadata", crate_type="lib", crate_name=tag, edition=ed)
    res = {}
    for c in cases:
        mine = [m for m in ms if any(at.get(x) == c["id"] for x in root_lines(m, path))]
        if any(WHY[c["out"][1]](m) for m in mine):
            res[c["id"]] = None
        elif alone:
            res[c["id"]] = "is accepted there" if rc == 0 else "is refused for another reason: " + ms[0]["message"][:200]
        else:
            res.update(refused_group(ctx, kit, w, sup, key, [c], tag + c["id"], True))
    return res


def check(ctx):
    thorough = ctx.tier == "thorough"
    kit = derive.Kit(ctx, ["all"], list("abcd"))
    sup = os.path.join(ctx.dir("rs-hygiene"), "libsup.rlib")
    rc, ms = rustc(os.path.join(VERIF, "harness", "hygiene", "sup.rs"), sup, {}, crate_type="lib", crate_name="sup")
    if rc != 0:
        raise ToolError("harness/hygiene does not compile: " + str(ms[:2])[:800])
    runs = [(m, w, n) for w in "abcd" for m, n in (("each", 0), ("places", 0), ("random", 12000 if thorough else 1200)) if w == "a" or m == "each"]

    def go(r):
        m, w, n = r
        out = os.path.join(ctx.dir("gen"), m + w + ".jsonl")
        run_tlc(ctx, "HygieneMC", {"Mode": m, "World": w, "OutFile": out}, INV, m + w, simulate=n, depth=10, workers=2 if n else 1, jvm="-Xmx2g", extra=() if n else ("-seed", str(ctx.seed)))
        return r, read_jsonl(out)
    cases, seen = [], set()
    for (m, w, n), got in parallel(go, runs, 4):
        for c in sorted(got, key=lambda c: json.dumps(c, sort_keys=True)):
            k = json.dumps([w, c["th"], c["site"]], sort_keys=True)
            if k not in seen:
                seen.add(k)
                c.update(w=w, id=f"c{len(cases)}", sig=f"{c['th']['n']}{c['th']['x']}@{c['site']['cr']['ed']}/{c['site']['cr']['lib']}/{c['site']['place']}:{'+'.join(sorted(c['site']['decl']))}:{c['site']['nm']}:{'lint' if c['site']['lint'] else ''}")
                render(c, len(cases), kit.tab)
                cases.append(c)
                ctx.add("sites_" + m, 1)
    groups = {}
    refused = {}
    for c in cases:
        if c["th"]["k"] == "refused":
            refused.setdefault((c["w"], c["site"]["cr"]["ed"], c["site"]["cr"]["lib"], c["out"][1]), []).append(c)
            continue
        groups.setdefault((c["w"], c["site"]["cr"]["ed"], c["site"]["cr"]["lib"]), []).append(c)
    jobs = []
    for (w, ed, lib), cs in groups.items():
        n = (len(cs) + 149) // 150
        jobs += [(w, (ed, lib), cs[k::n], f"h_{w}_{ed}_{lib}_{k}") for k in range(n)]
    jobs.sort(key=lambda j: -len(j[2]))
    out, errs = {}, {}
    for o, e in parallel(lambda j: compile_group(ctx, kit, j[0], sup, j[1], j[2], j[3]), jobs):
        out.update(o)
        errs.update(e)
    bad = {}
    for o in parallel(lambda g: refused_group(ctx, kit, g[0], sup, g[1:3], refused[g], "r_" + "_".join(g)), sorted(refused)):
        bad.update(o)
    rows = {w: list(probes.STD) + list(probes.WORLDS[w]) for w in "abcd"}
    for c in cases:
        ctx.traces += 1
        rep = {"source": c["src"], "site": c["site"], "code": c["th"], "expected": c["out"]}
        if c["th"]["k"] == "refused":
            if bad[c["id"]]:
                ctx.violation(c["sig"], f"must be refused ({c['out'][1]}) but " + bad[c["id"]], rep)
        elif c["id"] in errs:
            ctx.violation("compile:" + c["sig"], f"does not compile there: {errs[c['id']][0][:250]}", dict(rep, errors=errs[c["id"]][:4]))
        elif c["th"]["k"] == "derive":
            have = {t for t, x in zip(rows[c["w"]], out[c["id"]]) if x == "1"}
            if have != set(c["out"][1]):
                ctx.violation(c["sig"], f"the enum implements {sorted(have)}, expected {sorted(c['out'][1])}", dict(rep, got=sorted(have)))
        elif out[c["id"]] != c["want"]:
            ctx.violation(c["sig"], f"expected {c['want']}, got {out[c['id']]}", dict(rep, got=out[c["id"]]))
    ctx.add("crates", len(groups))
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample({"code": c["th"]["n"], "site": c["site"], "source": c["src"][-400:]})
