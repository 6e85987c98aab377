"""Conformance of the real Transpose methods with the Transpose specification (C15)."""
import json, os, re
from vlib import *
import derive

INV = ["Preserved", "SameSide", "WellTyped", "Shape"]
HARNESS = """
use auto_enums::*; use probes::Mk;
pub trait Show { fn show(&self) -> String; }
#[derive(PartialEq, Eq)] pub struct L<const KK: usize>(u32);
impl<const KK: usize> Show for L<KK> { fn show(&self) -> String { format!("L{}#{}", KK, self.0) } }
impl<const KK: usize> core::fmt::Debug for L<KK> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "L{}#{}", KK, self.0) } }
thread_local! { static DROPS: core::cell::RefCell<Vec<u32>> = const { core::cell::RefCell::new(vec![]) }; }
impl<const KK: usize> Drop for L<KK> { fn drop(&mut self) { DROPS.with(|d| d.borrow_mut().push(self.0)) } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!("Some({})", x.show()), None => "None".into() } } }
impl<T: Show, E: Show> Show for Result<T, E> { fn show(&self) -> String { match self { Ok(x) => format!("Ok({})", x.show()), Err(x) => format!("Err({})", x.show()) } } }
fn ty<T>(_: &T) -> String { core::any::type_name::<T>().to_string() }
""".replace("\n", " ")


def ty(t):
    if t["k"] == "leaf":
        return f"L<{t['p'][0]['k']}>"
    c = [ty(x) for x in t["p"]]
    return f"Option<{c[0]}>" if t["k"] == "opt" else f"Result<{c[0]}, {c[1]}>"


def val(v, t):
    if v["k"] == "leaf":
        return f"L::<{t['p'][0]['k']}>({v['p'][0]['k']})"
    if v["k"] == "none":
        return "None"
    s = 1 if v["k"] == "err" else 0
    return f"{v['k'].capitalize()}({val(v['p'][0], t['p'][s])})"


def show(v, t):
    return re.sub(r"L::<(\d+)>\((\d+)\)", r"L\1#\2", val(v, t))


def names(n, salt):
    """variant names, in an order of their own"""
    x = ["Vb", "Va", "Z", "Some_", "Ok_", "Q9"]
    return [x[(j + salt) % 6] if n <= 6 else f"{x[(j + salt) % 6]}{j}" for j in range(n)]


def enum_def(n, vs, extra=""):
    g = [chr(65 + j) for j in range(n)]
    return (f"#[enum_derive({extra}Transpose)] pub enum N<{', '.join(g)}> {{ " + ", ".join(f"{v}({x})" for v, x in zip(vs, g)) + " } "
            + f"impl<{', '.join(x + ': Show' for x in g)}> Show for N<{', '.join(g)}> {{ fn show(&self) -> String {{ match self {{ " + " ".join(f"N::{v}(x) => format!(\"{v}({{}})\", x.show())," for v in vs) + " } } } ")


def norm(t):
    return re.sub(r"\b(?:\w+::)+(?=\w)", "", t)


def render(c, i):
    """a history of calls; expected output lines"""
    n, a = c["n"], c["act"] - 1
    vs = names(n, i)
    st = c["start"]
    src = HARNESS + enum_def(n, vs, ["", "Debug, ", "", "Clone, "][i % 4])
    et = lambda ts: "N<" + ", ".join(ty(t) for t in ts) + ">"
    body = f"let x0: {et(st['tys'])} = N::{vs[a]}({val(st['v'], st['tys'][a])}); let mut o = vec![x0.show()]; "
    want = [f"{vs[a]}({show(st['v'], st['tys'][a])})"]
    tys = st["tys"]
    for k, s in enumerate(c["steps"]):
        body += f"let r = x{k}.{s['m']}(); o.push(r.show()); o.push(ty(&r)); "
        one, two = [t["p"][0] for t in tys], [t["p"][1] for t in tys] if tys[0]["k"] == "res" else None
        if tys[0]["k"] == "opt":
            rt = f"Option<{et(one)}>"
        else:
            rt = f"Result<{ty(one[0]) if s['m'] == 'transpose_err' else et(one)}, {ty(two[0]) if s['m'] == 'transpose_ok' else et(two)}>"
        w = s["w"].capitalize()
        if s["w"] == "none":
            want += ["None", rt]
        else:
            inner = show(s["v"][0], s["tys"][a])
            want += [f"{w}({vs[a]}({inner}))" if s["en"] else f"{w}({inner})", rt]
        if k + 1 < len(c["steps"]):
            body += f"let x{k + 1} = match r {{ {w}(x) => x, _ => return o.join(\"|\") }}; "
            tys = s["tys"]
        else:
            body += "DROPS.with(|d| o.push(format!(\"{:?}\", d.borrow()))); drop(r); DROPS.with(|d| o.push(format!(\"{:?}\", d.borrow()))); "
    # (a value is dropped exactly once, after the last result)
    ids = re.findall(r"#(\d+)", want[0])
    want += ["[]", f"[{', '.join(ids)}]"]
    c["src"] = src + f"pub fn chk() -> String {{ DROPS.with(|d| d.borrow_mut().clear()); {body} o.join(\"|\") }}"
    c["want"] = "|".join(want)


def render_auto(c, i):
    """the same through #[auto_enum]: one call after a match"""
    n, a, st, s = c["n"], c["act"] - 1, c["start"], c["steps"][0]
    arms = ""
    for j in range(n):
        t = st["tys"][j]
        v = f"is::<{ty(t)}>({val(st['v'], t)})" if j == a else f"gen::<{ty(t)}>()"
        arms += (f"{j} => " if j + 1 < n else "_ => ") + v + ", "
    two = st["tys"][0]["k"] == "res"
    side = lambda k, bare: ty(st["tys"][0]["p"][k]) if bare else "impl core::fmt::Debug"
    rt = f"Result<{side(0, s['m'] == 'transpose_err')}, {side(1, s['m'] == 'transpose_ok')}>" if two else "Option<impl core::fmt::Debug>"
    if i % 2:
        f = f"#[auto_enum(Transpose, Debug)] fn f(n: usize) -> {rt} {{ match n {{ {arms} }}.{s['m']}() }}"
    else:
        f = f"#[auto_enum] fn f(n: usize) -> {rt} {{ #[auto_enum(Debug, Transpose)] let x = match n {{ {arms} }}; x.{s['m']}() }}"
    c["src"] = HARNESS + f"fn gen<T>() -> T {{ loop {{}} }} fn is<T>(x: T) -> T {{ x }} {f} pub fn chk() -> String {{ format!(\"{{:?}}\", f({a})) }}"
    c["want"] = "None" if s["w"] == "none" else f"{s['w'].capitalize()}({show(s['v'][0], s['tys'][a])})"


def render_avail(c, m, i):
    n = len(c["tys"])
    vs = names(n, i)
    return HARNESS + enum_def(n, vs) + f"fn t(x: N<{', '.join(ty(t) for t in c['tys'])}>) {{ let _ = x.{m}(); }} "


def render_item(it):
    nm = [{"life": "'" + chr(97 + j), "type": chr(65 + j), "const": "M" + str(j)}[p["k"]] for j, p in enumerate(it["ps"])]
    g = ", ".join({"life": x, "type": x + (" = u8" if p["d"] else ""), "const": f"const {x}: usize"}[p["k"]] for x, p in zip(nm, it["ps"]))

    def fld(f):
        x = nm[f["i"] - 1] if f["i"] else ""
        return {"par": f"({x})", "wrap": f"(&{x} u8)" if x[:1] == "'" else f"(Box<{x}>)", "conc": "(u16)", "unit": ""}[f["k"]]
    wh = f" where {next((x for x in nm if x[:1] not in chr(39) + 'M'), 'u8')}: Mk" if it["wh"] else ""
    return f"enum N{'<' + g + '>' if g else ''}{wh} {{ " + ", ".join(f"V{j}{fld(f)}" for j, f in enumerate(it["fs"])) + " }"


def check(ctx):
    thorough = ctx.tier == "thorough"
    kit = derive.Kit(ctx, ["all", "std"], ["d"])
    runs = [("one", 6 if thorough else 4, 0), ("wide", 12, 0), ("chain", 6 if thorough else 5, 40000 if thorough else 2400), ("avail", 3, 0), ("items", 3, 0)]

    def go(r):
        out = os.path.join(ctx.dir("gen"), r[0] + ".jsonl")
        run_tlc(ctx, "TransposeMC", {"Mode": r[0], "MaxN": r[1], "OutFile": out}, INV, r[0], simulate=r[2], depth=20, workers=2, jvm="-Xmx3g")
        return r[0], sorted({json.dumps(c, sort_keys=True) for c in read_jsonl(out)})
    cases, bad, k = [], [], 0

    def case(c, lst, **kw):
        nonlocal k
        c["id"] = f"c{k}"
        k += 1
        c.update(kw)
        lst.append(c)
    for mode, got in parallel(go, runs, 4):
        got = [json.loads(x) for x in got]
        ctx.add("cases_" + mode, len(got))
        for i, c in enumerate(got):
            if mode in ("one", "wide", "chain"):
                render(c, i)
                case(c, cases, sig=f"{mode}:{c['n']}:{c['act']}:{[s['m'] for s in c['steps']]}:{crc(c['start']):08x}", fs="all")
                if mode in ("one", "wide") and c["n"] > 1:
                    d = {x: c[x] for x in ("n", "act", "start", "steps")}
                    render_auto(d, i)
                    case(d, cases, sig=f"auto:{c['n']}:{c['act']}:{c['steps'][0]['m']}:{crc(c['start']):08x}", fs="all")
            elif mode == "avail":
                for m in ("transpose", "transpose_ok", "transpose_err"):
                    d = dict(c, src=render_avail(c, m, i), want="", m=m)
                    if m in c["ms"]:
                        d["src"] += "pub fn chk() -> String { String::new() }"
                    case(d, cases if m in c["ms"] else bad, sig=f"avail:{m}:{[ty(t) for t in c['tys']]}", fs="all", macro=False)
            else:
                e = render_item(c)
                if not c["on"]:
                    # without the crate feature the name is none of the macro's business
                    d = dict(c, want="true", src="pub mod z { pub use recorder::P0 as Transpose; } use super::dfalse::*; use probes::Mk; use auto_enums::*; use z::Transpose; #[enum_derive(Transpose)] " + e + " pub fn chk() -> String { D0.to_string() }")
                    case(d, cases, sig="off:" + e, fs="std")
                elif c["ok"]:
                    g = ", ".join("Option<u8>" for _ in c["ps"])
                    d = dict(c, want="true", src=HARNESS + "#[enum_derive(Transpose)] " + e + f" pub fn chk() -> String {{ let x: N<{g}> = N::V0(Some(1)); x.transpose().is_some().to_string() }}")
                    case(d, cases, sig="item:" + e, fs="all")
                else:
                    case(dict(c, src=HARNESS + "#[enum_derive(Transpose)] " + e), bad, sig="item:" + e, fs="all", macro=True)
    groups = {}
    for c in cases:
        groups.setdefault((c["fs"], "d"), []).append(c)
    out, errs = derive.run_all(kit, groups, per=200)
    for c in cases:
        ctx.traces += 1
        rep = {"source": c["src"].replace(HARNESS, ""), "expected": c["want"]}
        if c["id"] in errs:
            ctx.violation("compile:" + c["sig"], f"does not compile: {errs[c['id']][0][1][:250]}", dict(rep, errors=errs[c["id"]][:4]))
        elif norm(out[c["id"]]) != c["want"]:
            ctx.violation(c["sig"], f"expected {c['want']}, got {norm(out[c['id']])}", dict(rep, got=out[c["id"]]))
    o, e = derive.run_all(kit, {("all", "d"): bad}, meta=True, per=300)
    for c in bad:
        ctx.traces += 1
        if not any(x == c["macro"] for x, _ in e.get(c["id"], [])):
            ctx.violation("accept:" + c["sig"], f"expected {'an error of the macro' if c['macro'] else 'that there is no such method'}, got {e.get(c['id'], 'none')}", {"source": c["src"].replace(HARNESS, "")})
    ctx.add("accepted_and_run", len(cases))
    ctx.add("rejected", len(bad))
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample({"source": c["src"].replace(HARNESS, ""), "outcome": c["want"]})
