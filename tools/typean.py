"""Conformance of the real type analysis with the TypeAnalysis specification (the second half of C18)."""
import json, os, re
from vlib import *
import derive, probes

INV = ["TakenOnce", "NotRepeated", "ExactlyNamed", "MeaningOfNames"]
USES = ("use core::fmt::{self, Debug, Display}; use std::io::{self, Read, BufRead, Write, Seek}; use std::error::{self, Error}; use core::iter::{self, FusedIterator, TrustedLen}; "
        "use core::ops::{self, Deref, DerefMut, Index, IndexMut, RangeBounds, Coroutine}; use core::hash::{self, Hash}; use core::future::Future; use core::{convert, clone}; "
        "use probes::{Mk, T, full, the}; mod marks { pub use probes::Mk; } use auto_enums::auto_enum; ")
ARGS = {"AsRef": "<u8>", "AsMut": "<u8>", "Extend": "<u8>", "Index": "<u8>", "IndexMut": "<u8>", "RangeBounds": "<u8>", "Coroutine": "<u8>", "Fn": "(u8) -> T<0>", "FnMut": "(u8) -> T<0>", "FnOnce": "(u8) -> T<0>"}
GIVEN = {"Iterator": "Item", "Future": "Output", "Deref": "Target"}


def bound(b, form):
    if b["s"] == "'":
        return "'static"
    if b["s"] == "?":
        return "?Sized" if form in ("let", "letw") else "Sized"
    t = b["s"] + ARGS.get(b["s"].split("::")[-1], "")
    if b["a"]:
        t += f"<{GIVEN[b['s']]} = {ty(b['a'][0], form)}>"
    return {"": t, "paren": f"({t})", "hr": f"for<'z> {t}"}[b["m"]]


def ty(t, form):
    k = t["k"]
    if k == "impl":
        return "impl " + " + ".join(bound(b, form) for b in t["b"])
    c = [ty(x, form) for x in t["c"]]
    return {"con": lambda: "T<0>", "opt": lambda: f"Option<{c[0]}>", "tup": lambda: "(" + ", ".join(c) + ",)", "arr": lambda: f"[{c[0]}; 1]", "ref": lambda: f"&'static ({c[0]})",
            "box": lambda: f"Box<{c[0]}>", "res": lambda: f"Result<{c[0]}, {c[1]}>"}[k]()


def val(t, leaf):
    """a value of the type, with `leaf` for each impl Trait"""
    k = t["k"]
    if k == "impl":
        return leaf
    # (a second impl Trait is not a value of the enum: nothing would determine the other type parameters)
    c = [val(x, "full()" if x["k"] == "impl" and any(y["k"] == "impl" for y in t["c"][:j]) else leaf) for j, x in enumerate(t["c"])]
    if k == "res":
        return f"Ok::<_, T<0>>({c[0]})" if t["c"][0]["k"] == "impl" else f"Err::<T<0>, _>({c[1]})"
    return {"con": lambda: "the::<0>()", "opt": lambda: f"Some({c[0]})", "tup": lambda: "(" + ", ".join(c) + ",)", "arr": lambda: f"[{c[0]}]", "ref": lambda: f"Box::leak(Box::new({c[0]}))",
            "box": lambda: f"Box::new({c[0]})"}[k]()


def rows(t, x):
    """the row of every impl Trait in the value x of the type: expressions"""
    k = t["k"]
    if k == "impl":
        return [f"probes::HasRow::the_row(&{x})"]
    if k == "con":
        return []
    if k == "opt":
        return rows(t["c"][0], f"{x}.unwrap()")
    if k == "tup":
        return [r for i, c in enumerate(t["c"]) for r in rows(c, f"{x}.{i}")][:1]
    if k == "arr":
        return rows(t["c"][0], f"{x}[0]")
    if k in ("ref", "box"):
        return rows(t["c"][0], f"(*{x})")
    j = 0 if t["c"][0]["k"] == "impl" else 1
    return rows(t["c"][j], f"{x}.{'ok' if j == 0 else 'err'}().unwrap()")


def render(c):
    f, t = c["form"], c["ty"]
    w = f in ("fnw", "letw")
    args = list(c["args"])
    at = f"#[auto_enum({', '.join(args)})]" if args else "#[auto_enum]"
    rt = ty(t, f)
    # inside another type each value has its own marker (there are none when nothing is to be done)
    v = val(t, ("full()" if c["noop"] else "marker!(full())") if w else "full()")
    if f in ("fn", "fnw", "method"):
        if c["ex"] < 2:
            body = v
        elif w:
            body = f"if c {{ return {v}; }} {v}"
        else:
            body = f"if c {{ {v} }} else {{ {v} }}"
    if f in ("fn", "fnw"):
        return USES + f"{at} fn f(c: bool) -> {rt} {{ {body} }} pub fn chk() -> String {{ [{', '.join(rows(t, 'f(true)') + rows(t, 'f(false)'))}].join(\" \") }}"
    if f == "method":
        return USES + (f"struct S; impl S {{ {at} fn f(&self, c: bool, _x: impl Display + Mk) -> {rt} {{ {body} }} }} "
                       f"pub fn chk() -> String {{ [{', '.join(rows(t, 'S.f(true, 1)') + rows(t, 'S.f(false, 2)'))}].join(\" \") }}")
    if c["ex"] < 2:
        init = v
    elif w:
        init = f"{{ let r; if c {{ r = {v}; }} else {{ r = {v}; }} r }}"
    else:
        init = f"if c {{ {v} }} else {{ {v} }}"
    return USES + (f"#[auto_enum] fn f(c: bool) -> String {{ {at} let x: {rt} = {init}; [{', '.join(rows(t, 'x'))}].join(\" \") }} "
                   "pub fn chk() -> String { [f(true), f(false)].join(\" \") }")


def check(ctx):
    thorough = ctx.tier == "thorough"
    kit = derive.Kit(ctx, ["all"], ["a"], extra=("type_analysis",))
    runs = [("one", 0), ("two", 0), ("rand", 24000 if thorough else 1600)]

    def go(r):
        out = os.path.join(ctx.dir("gen"), r[0] + ".jsonl")
        run_tlc(ctx, "TypeAnalysisMC", {"Mode": r[0], "Feats": set(derive.ALLF), "Miss": set(derive.MISS), "OutFile": out}, INV, "ta_" + r[0],
                simulate=r[1], depth=60, workers=4 if r[1] else 2, jvm="-Xmx4g")
        return r[0], read_jsonl(out)
    cases, seen = [], set()
    for m, got in parallel(go, runs, 3):
        for c in sorted(got, key=lambda c: json.dumps(c, sort_keys=True)):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                c["id"] = f"c{len(cases)}"
                c["src"] = render(c)
                cases.append(c)
                ctx.add("types_" + m, 1)
    good = {("all", "a"): [c for c in cases if not c["err"] and not c["unmet"]]}
    bad = {("all", "a"): [c for c in cases if c["err"] or c["unmet"]]}
    out, errs = derive.run_all(kit, good)
    names = list(probes.STD) + list(probes.WORLDS["a"])
    for c in cases:
        ctx.traces += 1
        t = ty(c["ty"], c["form"])
        sg = f"{c['form']}{c['ex']}:{','.join(c['args'])}:{t}"
        if c["err"] or c["unmet"]:
            continue
        rep = {"source": c["src"], "expected": "nothing" if c["noop"] else c["list"], "implements": c["means"]}
        if c["id"] in errs:
            ctx.violation("compile:" + sg, f"#[auto_enum({', '.join(c['args'])})] with `{t}` ({c['form']}) does not compile: {errs[c['id']][0][1][:250]}", dict(rep, errors=errs[c["id"]][:4]))
            continue
        want = set(names) if c["noop"] else set(c["means"])
        for row in out[c["id"]].split(" "):
            have = {n for n, x in zip(names, row) if x == "1"}
            if have != want:
                ctx.violation(sg, f"#[auto_enum({', '.join(c['args'])})] with `{t}` ({c['form']}): missing {sorted(want - have)}, unexpected {sorted(have - want)}", dict(rep, got=sorted(have)))
                break
    o, e = derive.run_all(kit, bad, meta=True)
    for c in bad[("all", "a")]:
        ms = [m for k, m in e.get(c["id"], []) if k == c["err"]]
        if not ms and c["err"]:
            ctx.violation(f"accept:{c['form']}:{','.join(c['args'])}:{ty(c['ty'], c['form'])}", f"one exit and a list of traits: expected an error, got {e.get(c['id'], 'none')}", {"source": c["src"]})
        elif not ms:
            ctx.violation(f"accept:{c['form']}:{','.join(c['args'])}:{ty(c['ty'], c['form'])}", f"`{ty(c['ty'], c['form'])}` names a trait that is neither written nor taken: expected an error of rustc, got {e.get(c['id'], 'none')}", {"source": c["src"]})
    ctx.add("rejected", len(bad[("all", "a")]))
    ctx.add("nothing_to_do", sum(1 for c in cases if c["noop"]))
    for c in cases[::max(1, len(cases) // 4)]:
        ctx.sample({"source": c["src"].split("auto_enum; ")[-1], "expected": "nothing" if c["noop"] else c["list"]})
