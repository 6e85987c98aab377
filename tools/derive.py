"""Conformance of the real #[enum_derive] with the EnumDerive specification (C13, C14, C17, C19)."""
import json, os, re, shutil, subprocess, sys
from vlib import *
from deleg import CRATES
sys.path.insert(0, os.path.join(VERIF, "harness", "derive"))
import probes

ALLF = ["std", "ops", "convert", "fmt", "unstable", "fn_traits", "coroutine_trait", "trusted_len", "transpose_methods",
        "futures03", "futures01", "rayon", "serde", "tokio1", "tokio03", "tokio02", "tokio01", "http_body1"]
FSETS = {"all": ALLF, "std": ["std"], "none": [], "core": ["ops", "convert", "fmt", "unstable", "trusted_len", "futures03", "rayon"],
         "alloc": ["std", "unstable", "fn_traits", "coroutine_trait", "tokio1", "serde", "http_body1"]}
MISS = ["Copy", "Eq", "PartialOrd", "Ord", "futures03::AsyncBufRead", "tokio1::AsyncBufRead", "tokio03::AsyncBufRead",
        "tokio02::AsyncBufRead", "tokio01::AsyncRead", "tokio01::AsyncWrite"]
INV = ["EachOnce", "PrereqFirst", "ExactlyListed", "OnlyUnsupported", "OneMeaning", "Grounded", "HasUpward"]
STDD = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]


# ---------------------------------------------------------------- the model

def tlc(ctx, mode, combos, name=None, maxlen=3, miss=MISS, simulate=0, workers=4):
    out = os.path.join(ctx.dir("gen"), (name or mode) + ".jsonl")
    run_tlc(ctx, "EnumDeriveMC", {"Mode": mode, "Combos": [{"w": w, "fs": set(fs)} for w, fs in combos], "Miss": set(miss),
                                  "MaxLen": maxlen, "OutFile": out}, INV, name or mode, simulate=simulate, depth=60, workers=workers, jvm="-Xmx4g")
    return read_jsonl(out)


def table(ctx):
    return {t["n"]: t for t in tlc(ctx, "table", [("a", [])])[0]}


# ---------------------------------------------------------------- building

class Kit:
    """The macro with each set of features, and the probes of each world."""

    def __init__(self, ctx, fsets, worlds, extra=()):
        self.ctx = ctx
        self.tab = table(ctx)
        self.so, self.rlib, self.ext = {}, {}, {}
        tgt = os.path.join(VERIF, "build", "target-derive")

        def cargo(name, deps, src=""):
            d = ctx.dir("cargo-" + name)
            os.makedirs(os.path.join(d, "src"), exist_ok=True)
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write(f'[package]\nname = "h_{name}"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n{deps}\n')
            with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                f.write(src)
            shutil.copy("/opt/vp/ws/Cargo.lock", os.path.join(d, "Cargo.lock"))
            e = env()
            e["CARGO_TARGET_DIR"] = tgt
            r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True, timeout=800)
            if r.returncode != 0:
                raise ToolError("building auto_enums failed:\n" + r.stderr[-4000:] + "\n" + "\n".join(
                    json.loads(x).get("message", {}).get("rendered", "") for x in r.stdout.splitlines()
                    if x.startswith("{") and json.loads(x).get("reason") == "compiler-message")[-4000:])
            res = {}
            for x in r.stdout.splitlines():
                if x.startswith("{"):
                    m = json.loads(x)
                    if m.get("reason") == "compiler-artifact":
                        for fn in m["filenames"]:
                            if fn.endswith((".so", ".rlib")):
                                res.setdefault((m["target"]["name"].replace("-", "_"), m["package_id"].split("#")[-1].split("@")[-1]), fn)
            return res

        # the external crates, the recorder, and the macro with every feature
        need = sorted({x for w in worlds for x in probes.EXTERN[w]})
        deps = f'recorder = {{ path = "{VERIF}/harness/derive/recorder" }}\n' + "".join(
            (CRATES[x] if x in CRATES else 'bytes_crate = { package = "bytes", version = "1" }') + "\n" for x in need)
        got = cargo("ext", deps)
        self.recorder = next(v for k, v in got.items() if k[0] == "recorder")
        pkg = {"futures03": ("futures_util", "0.3"), "futures01": ("futures", "0.1"), "tokio1": ("tokio", "1."), "tokio03": ("tokio", "0.3"), "tokio02": ("tokio", "0.2"),
               "tokio01": ("tokio", "0.1"), "rayon": ("rayon", "1"), "serde": ("serde", "1"), "http_body1": ("http_body", "1"), "bytes": ("bytes", "1")}
        self.crate = {}
        for x in need:
            n, v = pkg[x]
            self.crate[x] = next(fn for (a, b), fn in got.items() if a == n and b.startswith(v))
        self.ldirs = [os.path.join(tgt, "debug", "deps")]
        for fs in fsets:
            feats = [f for f in FSETS[fs] if f != "std"] + list(extra)
            r = cargo("m_" + fs, f'auto_enums = {{ path = "{REPO}", default-features = {"true" if "std" in FSETS[fs] else "false"}, features = {json.dumps(feats)} }}')
            so = next(v for k, v in r.items() if k[0] == "auto_enums")
            self.so[fs] = os.path.join(ctx.dir("so-" + fs), os.path.basename(so))
            shutil.copy(so, self.so[fs])
        deps = {n: set(t["up"]) for n, t in self.tab.items()}

        def probe(w):
            src = os.path.join(ctx.dir("probes"), f"probes_{w}.rs")
            with open(src, "w") as f:
                f.write(probes.source(w, deps))
            out = os.path.join(ctx.dir("probes"), f"libprobes_{w}.rlib")
            rc, ms = rustc(src, out, {x + "_crate": self.crate[x] for x in probes.EXTERN[w]}, self.ldirs, crate_type="lib", crate_name="probes_" + w)
            if rc != 0:
                raise ToolError("the probes do not compile: " + "\n".join(m.get("rendered", m["message"])[:600] for m in ms[:6]))
            self.rlib[w] = out
        parallel(probe, worlds)

    def externs(self, fs, w):
        e = {"auto_enums": self.so[fs], "probes": self.rlib[w], "recorder": self.recorder}
        e.update({x + "_crate": self.crate[x] for x in probes.EXTERN[w]})
        return e


HEAD = "#![feature(fn_traits, unboxed_closures, coroutine_trait, trusted_len, exact_size_is_empty)]\n#![allow(warnings)]\n"
TAIL = """
fn main() { for (i, f) in TABLE { println!("{}\\t{}", i, f()); } }
"""
DFALSE = "pub mod dfalse { " + " ".join(f"pub const D{i}: bool = false;" for i in range(20)) + " }"


def compile_cases(kit, fs, w, cases, tag, meta=False):
    """Compile one module per case; cases: [{'id', 'src', 'chk'}], `chk` an expression giving a String.
    Returns ({id: output}, {id: [(is macro error, message)]}): cases that do not compile are set aside."""
    ctx = kit.ctx
    d = ctx.dir("rs-derive")
    errs = {}
    cases = list(cases)
    for attempt in range(8):
        path = os.path.join(d, f"{tag}.rs")
        lines = (HEAD + probes.externs(w) + "extern crate probes; extern crate recorder; extern crate auto_enums;\n" + DFALSE).splitlines()
        at = {}
        for c in cases:
            lines.append(f"pub mod {c['id']} {{ {c['src']} }}")
            at[len(lines)] = c["id"]
        if meta:
            lines.append("fn main() {}")
        else:
            lines.append("const TABLE: &[(&str, fn() -> String)] = &[" + ", ".join(f'("{c["id"]}", {c["id"]}::chk)' for c in cases) + "];" + TAIL)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        exe = os.path.join(d, tag)
        rc, ms = rustc(path, exe + (".rmeta" if meta else ""), kit.externs(fs, w), kit.ldirs, emit="metadata" if meta else "link", crate_type="lib" if meta else "bin")
        if rc == 0:
            break
        hit = {}
        loose = []
        for m in ms:
            ls = [at[x] for x in root_lines(m, path) if x in at]
            y = re.search(r"(?:in crate|module) `([ct]\d+)`|`([ct]\d+)::|cannot find \w+ `chk` in `?(?:module )?`?(c\d+)", m["message"])
            if ls:
                hit.setdefault(ls[0], []).append((m.get("code") is None, m["message"]))
            elif y:
                hit.setdefault(next(g for g in y.groups() if g), []).append((False, m["message"]))
            elif not re.match(r"aborting due|For more|Some errors", m["message"]):
                loose.append(m["message"])
        prim = {k: v for k, v in hit.items() if any("cannot find value `chk`" not in x[1] and "cannot find function `chk`" not in x[1] for x in v)} or hit
        if not hit:
            raise ToolError(f"unattributed compile failure in {tag}: " + "; ".join(loose[:5]))
        for k, v in prim.items():
            errs.setdefault(k, []).extend(v)
        cases = [c for c in cases if c["id"] not in errs]
        if not cases:
            return {}, errs
    else:
        raise ToolError(f"{tag}: too many rounds of compile errors: " + str(list(errs.items())[-3:])[:1500])
    if meta:
        return {c["id"]: "" for c in cases}, errs
    p = subprocess.run([exe], capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError(f"{tag}: the program stopped: " + p.stderr[-500:])
    got = dict(x.split("\t", 1) for x in p.stdout.splitlines() if "\t" in x)
    return got, errs


def run_all(kit, groups, meta=False, per=120):
    """groups: {(fs, world): [case]}; one program for every `per` cases, in parallel"""
    jobs = []
    for (fs, w), cs in groups.items():
        n = max(1, min(NCPU, len(cs) // per + (len(cs) % per > 0)))
        n = max(n, (len(cs) + 399) // 400)
        for k in range(n):
            if cs[k::n]:
                jobs.append((fs, w, cs[k::n], f"{'n' if meta else 'p'}_{fs}_{w}_{k}"))
    jobs.sort(key=lambda j: -len(j[2]))
    out, errs = {}, {}
    for o, e in parallel(lambda j: compile_cases(kit, j[0], j[1], j[2], j[3], meta), jobs):
        out.update(o)
        errs.update(e)
    return out, errs


# ---------------------------------------------------------------- pieces of programs

def field(f, tab):
    """the probe type of a field of the specification"""
    c = f["c"]
    s = "Full" if c["c"] == "full" else ("Just_" if c["c"] == "just" else "But_") + probes.ident(c["n"])
    return f"Pr<{s}, K{f['k'][0]}{f['k'][1]}, {'()' if f['u'] else 'core::marker::PhantomPinned'}, {'u8' if f['q'] == 0 else 'u16'}>"


def ab(n):
    return list("ABCDFGHIJKLMNO" if n > 4 else "ABCD")[:n]


GFORM = {"plain": ({}, ""), "bound": ({"A": ": probes::Wh"}, ""), "where": ({}, "A: probes::Wh"), "both": ({"A": ": probes::Wh", "B": ": Sized"}, "B: probes::Wh,"),
         "many": ({}, "A: probes::Wh, B: probes::Wh, Option<A>: Sized")}


def enum_ab(n, gf="plain"):
    g = ab(n)
    b, wh = GFORM[gf]
    return f"pub enum E{'<' + ', '.join(x + b.get(x, '') for x in g) + '>' if g else ''}{' where ' + wh if wh else ''} {{ " + ", ".join(f"V{x}({x})" for x in g) + " }"


PRE = "use probes::*; use auto_enums::enum_derive; "


def derive_names(l, tab, fs, w, k0=0):
    """modules and derives standing for the arguments that are passed on; {argument: number}"""
    names, mods, top, nums = [], {}, [], {}
    known = {a: t for t in tab.values() for a in t["as"]}
    for s in l:
        t = known.get(s)
        if t and (t["std"] or t["f"] in FSETS[fs] or t["f"] == ""):
            continue
        k = len(nums)
        nums[s] = k
        segs = s.split("::")
        if len(segs) == 1:
            top.append(f"use recorder::P{k} as {s};")
        else:
            mods.setdefault(tuple(segs[:-1]), []).append((segs[-1], k))
    tree = {}
    for p, xs in mods.items():
        n = tree
        for x in p:
            n = n.setdefault(x, {})
        n.setdefault("", []).extend(xs)

    def show(n):
        o = "".join(f"pub use recorder::P{k} as {x}; " for x, k in n.get("", []))
        return o + "".join(f"pub mod {m} {{ {show(c)} }} " for m, c in n.items() if m)
    return " ".join(top) + " " + show(tree), nums


# ---------------------------------------------------------------- C14

def check_c14(ctx):
    thorough = ctx.tier == "thorough"
    fsets = ["all", "std", "none", "core", "alloc"]
    kit = Kit(ctx, fsets, list("abcd"))
    combos = [("all", w) for w in "abcd"] + [(f, "a") for f in fsets[1:]]
    cs = [(w, FSETS[f]) for f, w in combos]
    runs = [("one", "one", cs, 1, 0), ("pairs", "pairs", cs[:4] + [cs[4]] + ([cs[5], cs[6], cs[7]] if thorough else []), 2, 0), ("lists", "lists", cs, 7, 24000 if thorough else 2000)]
    cases, seen = [], set()

    def go(r):
        return r, tlc(ctx, r[1], r[2], r[0], r[3], simulate=r[4], workers=4 if r[4] else 2)
    for r, got in parallel(go, runs, 3):
        for c in sorted(got, key=lambda c: (c["via"], c["c"], c["l"])):
            fs, w = next(combos[k] for k in range(len(combos)) if cs[k] == r[2][c["c"] - 1])
            if (c["via"], fs, w, tuple(c["l"])) not in seen:
                seen.add((c["via"], fs, w, tuple(c["l"])))
                c["fs"], c["w"] = fs, w
                cases.append(c)
                ctx.add("lists_" + r[0], 1)
    groups = {}
    tab = kit.tab

    def make(i, c):
        c["id"] = f"c{i}"
        defs, nums = derive_names(c["l"], tab, c["fs"], c["w"])
        c["nums"] = nums
        args = ", ".join(c["l"]) + ("," if c["l"] and i % 3 == 0 else "")
        at = f"#[enum_derive({args})]" if c["l"] or i % 2 else "#[enum_derive]"
        k = 1 + i % 3
        f = ", ".join(["Pr<Full>"] * k)
        d = f"[{', '.join(f'D{j}' for j in range(len(nums)))}]"
        if c.get("via") == "auto":
            at = f"#[auto_enum({args})]"
            k += 1
            arms = ", ".join(f"{j} => full()" for j in range(1, k)) + ", _ => full()"
            c["src"] = PRE + "use super::dfalse::*; " + defs + "use auto_enums::auto_enum; fn rw<T>(_: &T) -> String { row::<T>() } " + (
                f"pub fn chk() -> String {{ let mut d = Vec::<bool>::new(); fn num() -> u8 {{ 1 }} {at} fn go(d: &mut Vec<bool>, n: u8) -> impl ::core::marker::Sized {{ d.extend({d} as [bool; {len(nums)}]); match n {{ {arms} }} }} "
                f"let r = rw(&go(&mut d, num())); format!(\"{{}}\\t{{:?}}\", r, d) }}")
            groups.setdefault((c["fs"], c["w"]), []).append(c)
            return
        c["src"] = PRE + "use super::dfalse::*; " + defs + f"{at} {enum_ab(k)} " + \
            f"pub fn chk() -> String {{ let d = [{', '.join(f'D{j}' for j in range(len(nums)))}]; format!(\"{{}}\\t{{:?}}\", row::<E<{f}>>(), d as [bool; {len(nums)}]) }}"
        groups.setdefault((c["fs"], c["w"]), []).append(c)
    for i, c in enumerate(cases):
        make(i, c)
    # known to be missing: every trait whose prerequisites #[enum_derive] does not add
    singles = []
    for n in MISS:
        t = tab[n]
        w = "a" if t["w"] == "s" else t["w"]
        c = {"w": w, "fs": "all", "c": 0, "l": [n], "out": sorted([n] + t["up"]), "pass": [n] if t["std"] else [], "missing": n}
        make(len(cases) + len(singles), c)
        singles.append(c)
    out, errs = run_all(kit, groups)
    rows = {w: list(probes.STD) + list(probes.WORLDS[w]) for w in "abcd"}
    for c in cases + singles:
        ctx.traces += 1
        sg = f"missing-prerequisite:{c['missing']}" if "missing" in c else f"{c['via']}:{c['fs']}/{c['w']}:{','.join(c['l'])}"
        at = {"auto": "auto_enum", "enum": "enum_derive"}[c.get("via", "enum")]
        rep = {"source": c["src"], "features": c["fs"], "world": c["w"], "list": c["l"], "expected": {"implements": c["out"], "passed on": c["pass"]}}
        if c["id"] in errs:
            m = errs[c["id"]]
            ctx.violation(sg, f"#[{at}({', '.join(c['l'])})] (features {c['fs']}) does not compile: {m[0][1][:250]}", dict(rep, errors=m[:5]))
            continue
        row, d = out[c["id"]].split("\t")
        have = {t for t, x in zip(rows[c["w"]], row) if x == "1"}
        want = set(c["out"])
        if have != want:
            ctx.violation(sg, f"#[{at}({', '.join(c['l'])})] (features {c['fs']}): missing {sorted(want - have)}, unexpected {sorted(have - want)}", dict(rep, got=sorted(have)))
        elif "false" in d:
            ctx.violation(sg, f"#[{at}({', '.join(c['l'])})] (features {c['fs']}): not every unsupported name was passed on to derive: {c['nums']} {d}", rep)
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample({"list": c["l"], "features": c["fs"], "implements": c["out"], "passed_on": c["pass"]})
    ctx.add("feature_sets", len(fsets))


# ---------------------------------------------------------------- C19

def check_c19(ctx):
    kit = Kit(ctx, ["all"], list("abcd"))
    combos = [(w, ALLF) for w in "abcd"]
    cases = tlc(ctx, "fields", combos, maxlen=3)
    tab = kit.tab
    defs = {}
    for c in sorted(cases, key=lambda c: json.dumps(c, sort_keys=True)):
        defs.setdefault((c["w"], tuple(c["l"]), c["n"], len(c["fs"])), []).append(c)
    groups = {}
    units = []
    for (w, l, n, k), cs in defs.items():
        for part in range(0, len(cs), 60):
            u = {"id": f"c{len(units)}", "w": w, "l": l, "n": n, "k": k, "cs": cs[part:part + 60]}
            units.append(u)
            body = []
            for c in u["cs"]:
                ty = "E<" + ", ".join(field(f, tab) for f in c["fs"]) + ">"
                hs = sorted(c["has"], key=lambda h: (h["n"], h["q"]))
                c["hs"] = hs
                qs = []
                for h in hs:
                    fn = probes.ident(h["n"]) + ("_1" if h["q"] else "")
                    qs.append(f"is_{fn}::<{ty}>()")
                asc = [h for h in hs if h["v"] and ({**probes.STD, **probes.WORLDS[w]})[h["n"]][2]]
                av = "true"
                if asc:
                    av = " && ".join("asc_{0}::<{1}>() == asc_{0}::<{2}>()".format(probes.ident(h["n"]) + ("_1" if h["q"] else ""), ty, field(c["fs"][0], tab)) for h in asc)
                body.append(f"b(&[{', '.join(qs)}], {av})")
            u["src"] = PRE + f"#[enum_derive({', '.join(l)})] {enum_ab(k)} fn b(v: &[bool], a: bool) -> String {{ v.iter().map(|x| if *x {{ '1' }} else {{ '0' }}).collect::<String>() + if a {{ \"+\" }} else {{ \"-\" }} }} pub fn chk() -> String {{ [{', '.join(body)}].join(\" \") }}"
            groups.setdefault(("all", w), []).append(u)
    out, errs = run_all(kit, groups, per=8)
    for u in units:
        if u["id"] in errs:
            ctx.violation(f"compile:{u['n']}:{u['k']}", f"#[enum_derive({', '.join(u['l'])})] does not compile: {errs[u['id']][0][1][:300]}", {"source": u["src"][:3000], "errors": errs[u["id"]][:3]})
            continue
        for c, g in zip(u["cs"], out[u["id"]].split(" ")):
            ctx.traces += 1
            want = "".join("1" if h["v"] else "0" for h in c["hs"]) + "+"
            if g != want:
                ctx.violation(f"{c['n']}:{[(f['c']['c'], f['c']['n'], f['k'], f['q']) for f in c['fs']]}",
                              f"#[enum_derive({', '.join(u['l'])})] with fields {[field(f, tab) for f in c['fs']]}: expected {[(h['n'], h['q'], h['v']) for h in c['hs']]}, got {g}",
                              {"list": list(u["l"]), "fields": [field(f, tab) for f in c["fs"]], "expected": c["hs"], "got": g})
    check_forall(ctx, kit, "forall")
    ctx.add("traits", len({(u["w"], u["n"]) for u in units}))
    ctx.add("field_combinations", len(cases))
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample({"list": c["l"], "fields": [field(f, tab) for f in c["fs"]], "implements": c["has"]})


# ---------------------------------------------------------------- parameters as fields (C19, C13)

UNSIZED_Q = {"AsRef", "AsMut", "RangeBounds"}
UNSIZED_A = {"Deref", "DerefMut", "Index", "IndexMut"}


def bound(n, q, k, tab, w, plain=False):
    """the trait n for the parameter Qq with associated types of the kind k, as a bound"""
    t = tab[n]
    path = ({**probes.STD, **probes.WORLDS[w]})[n][0].removeprefix("unsafe ").replace("@Q", f"Q{q}")
    names = next((({**probes.STD, **probes.WORLDS[w]})[x][2] for x in [n] + t["up"] if ({**probes.STD, **probes.WORLDS[w]})[x][2]), [])
    eq = [f"{a} = X{'AB'[i]}{k[i]}" for i, a in enumerate(names) if not plain]
    if eq:
        path = path[:-1] + ", " + ", ".join(eq) + ">" if path.endswith(">") else path + "<" + ", ".join(eq) + ">"
    return path


def forall_fn(c, tab, tag=""):
    """a function that compiles exactly if the enum is known to implement what is asked"""
    n, w, k = c["n"], c["w"], len(c["fs"])
    used = {}
    bs = []
    for i, f in enumerate(c["fs"]):
        have = [n] if f["c"]["c"] == "just" else [x for x in tab[n]["ds"]]
        b = [bound(x, f["q"], f["k"], tab, w) for x in have]
        if n == "Error":
            b.append("'static")
        if f["u"] and c["ask"] == "Unpin":
            b.append("::core::marker::Unpin")
        bs.append(f"{chr(65 + i)}: {' + '.join(b)}" if b else chr(65 + i))
    want = "::core::marker::Unpin" if c["ask"] == "Unpin" else bound(c["ask"], 0, c["fs"][0]["k"], tab, w)
    text = " ".join(bs) + want
    gs = []
    for x in sorted(set(re.findall(r"\b(Q\d|X[AB]\d)\b", text))):
        o = []
        if x[0] == "Q":
            if n in UNSIZED_Q:
                o.append("?::core::marker::Sized")
            if n == "rayon::ParallelExtend":
                o.append("::core::marker::Send")
        else:
            if n in UNSIZED_A:
                o.append("?::core::marker::Sized")
            if n.startswith("rayon::"):
                o.append("::core::marker::Send")
            if n == "http_body1::Body" and x[1] == "A":
                o.append("probes::Buf")
        gs.append(x + (": " + " + ".join(o) if o else ""))
    # (what the question mentions are parameters as well)
    ps = re.findall(r"\b(Q\d|X[AB]\d)\b", want)
    ps = sorted(set(ps))
    decl = [g for g in gs if re.match(r"\w+", g).group() in ps]
    return (f"fn need{tag}<{', '.join(decl + ['Z: ' + want])}>() {{}} "
            f"pub fn prove{tag}<{', '.join(gs + bs)}>() {{ need{tag}::<{', '.join(ps + ['E<' + ', '.join(ab(k)) + '>'])}>() }}")


def check_forall(ctx, kit, mode):
    tab = kit.tab
    cases = tlc(ctx, mode, [(w, ALLF) for w in "abcd"], maxlen=3)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    yes, no = {}, {}
    defs = {}
    for c in cases:
        if c["v"]:
            defs.setdefault((c["w"], tuple(c["l"]), len(c["fs"])), []).append(c)
    units = []
    for (w, l, k), cs in defs.items():     # what is known: one module for each enum
        u = {"id": f"c{len(units)}", "w": w, "l": l, "cs": cs}
        u["src"] = PRE + f"#[enum_derive({', '.join(l)})] {enum_ab(k)} " + " ".join(forall_fn(c, tab, str(j)) for j, c in enumerate(cs))
        units.append(u)
        yes.setdefault(("all", w), []).append(u)
    tries = []
    for c in cases:
        if not c["v"]:
            t = dict(c, id=f"t{len(tries)}", src=PRE + f"#[enum_derive({', '.join(c['l'])})] {enum_ab(len(c['fs']))} " + forall_fn(c, tab))
            tries.append(t)
            no.setdefault(("all", c["w"]), []).append(t)
    o, e = run_all(kit, yes, meta=True)
    for u in units:
        ctx.traces += len(u["cs"])
        if u["id"] in e:
            ctx.violation(f"forall:{','.join(u['l'])}", f"#[enum_derive({', '.join(u['l'])})]: not implemented for all types that allow it: {e[u['id']][0][1][:300]}", {"source": u["src"], "errors": e[u["id"]][:4]})
    o, e = run_all(kit, no, meta=True, per=300)
    for t in tries:
        ctx.traces += 1
        rep = {"source": t["src"], "errors": e.get(t["id"])}
        sg = f"forall:{t['ask']}:{','.join(t['l'])}:{[(f['c']['c'], f['k'], f['q'], f['u']) for f in t['fs']]}"
        if t["id"] not in e:
            ctx.violation(sg, f"#[enum_derive({', '.join(t['l'])})] implements {t['ask']} although not every field is known to", rep)
        elif any(k or re.search(r"cannot find|unresolved|recursion|expected one of|undeclared|ambiguous", m) for k, m in e[t["id"]]):
            ctx.violation(sg, f"rejected for another reason: {[m for _, m in e[t['id']]][:3]}", rep)
    ctx.add("universal_" + mode, sum(len(u["cs"]) for u in units))
    ctx.add("universal_" + mode + "_rejected", len(tries))
    for u in units[::max(1, len(units) // 3)]:
        ctx.sample({"source": u["src"][:1500], "compiles": True})


# ---------------------------------------------------------------- C13

UNP = {"unpin": "impl<{g}> core::marker::Unpin for E<{a}>{w} {{}}", "unpin-if": "impl<{g}> core::marker::Unpin for E<{a}> where A: core::marker::Unpin{c} {{}}",
       "unpin-pinned": "impl core::marker::Unpin for E<{p}> {{}}", "unpin-u8": "impl core::marker::Unpin for E<{u}> {{}}",
       "drop": "impl<{g}> core::ops::Drop for E<{a}>{w} {{ fn drop(&mut self) {{}} }}", "drop-where": "impl<{g}> ::std::ops::Drop for E<{a}> where{d} {{ fn drop(&mut self) {{ let _x = 0; }} }}"}


def check_c13(ctx):
    kit = Kit(ctx, ["all"], list("abcd"))
    combos = [(w, ALLF) for w in "abcd"]
    cases = tlc(ctx, "unpin", combos, maxlen=3)
    tab = kit.tab
    defs = {}
    for c in sorted(cases, key=lambda c: json.dumps(c, sort_keys=True)):
        defs.setdefault((c["w"], tuple(c["l"]), len(c["fs"]), c["g"]), []).append(c)
    pos, neg, units, tries = {}, {}, [], []
    for j, ((w, l, k, gf), cs) in enumerate(defs.items()):
        b, wh = GFORM[gf]
        g, a = ", ".join(x + b.get(x, "") for x in ab(k)), ", ".join(ab(k))
        tys = ["E<" + ", ".join(field(f, tab) for f in c["fs"]) + ">" for c in cs]
        item = PRE + f"#[enum_derive({', '.join(l)})] {enum_ab(k, gf)} "
        u = {"id": f"c{len(units)}", "w": w, "l": l, "cs": cs,
             "src": item + f"pub fn chk() -> String {{ [{', '.join(f'is_Unpin::<{t}>()' for t in tys)}].iter().map(|x| if *x {{ '1' }} else {{ '0' }}).collect() }}"}
        units.append(u)
        pos.setdefault(("all", w), []).append(u)
        for m in sorted(cs[0]["may"], key=lambda m: m["f"]):
            if k >= 3 and m["f"] in ("unpin-if", "drop-where") or k == 1 and m["f"] == "unpin-u8":
                continue
            t = {"id": f"t{len(tries)}", "w": w, "l": l, "f": m["f"], "v": m["v"],
                 "src": item + UNP[m["f"]].format(g=g, a=a, w=" where " + wh if wh else "", c=", " + wh if wh else "", d=" " + wh if wh else "", p=", ".join(["core::marker::PhantomPinned"] * k), u=", ".join(["u8"] * k))}
            tries.append(t)
            neg.setdefault(("all", w), []).append(t)
    out, errs = run_all(kit, pos)
    for u in units:
        if u["id"] in errs:
            ctx.violation(f"compile:{','.join(u['l'])}", f"#[enum_derive({', '.join(u['l'])})] does not compile: {errs[u['id']][0][1][:300]}", {"source": u["src"], "errors": errs[u["id"]][:3]})
            continue
        for c, g in zip(u["cs"], out[u["id"]]):
            ctx.traces += 1
            if (g == "1") != c["unpin"]:
                ctx.violation(f"unpin:{','.join(u['l'])}:{[f['u'] for f in c['fs']]}", f"#[enum_derive({', '.join(u['l'])})] with fields that are Unpin {[f['u'] for f in c['fs']]}: the enum is {'' if g == '1' else 'not '}Unpin",
                              {"source": u["src"], "fields": [field(f, tab) for f in c["fs"]], "expected": c["unpin"]})
    # attempts that have to be accepted, and attempts that have to be rejected
    for ok in (True, False):
        o, e = run_all(kit, {k: [t for t in v if t["v"] == ok] for k, v in neg.items()}, meta=True)
        for t in tries:
            if t["v"] != ok:
                continue
            ctx.traces += 1
            bad = t["id"] in e
            if bad == ok:
                ctx.violation(f"{t['f']}:{','.join(t['l'])}", f"#[enum_derive({', '.join(t['l'])})] next to `{t['f']}` of the user: expected to be {'accepted' if ok else 'rejected'}" + (f", got {e[t['id']][0][1][:200]}" if bad else ""),
                              {"source": t["src"], "errors": e.get(t["id"])})
            elif bad and not any("conflicting implementations" in m for _, m in e[t["id"]]):
                ctx.violation(f"{t['f']}:{','.join(t['l'])}", f"rejected for another reason: {e[t['id']][0][1][:200]}", {"source": t["src"], "errors": e[t["id"]]})
        ctx.add("accepted" if ok else "rejected", sum(1 for t in tries if t["v"] == ok))
    check_forall(ctx, kit, "forallu")
    ctx.add("lists", len({(u["w"], u["l"]) for u in units}))
    for t in tries[::max(1, len(tries) // 5)]:
        ctx.sample({"source": t["src"], "accepted": t["v"]})


# ---------------------------------------------------------------- C17

ATTRS = {"doc": "/// documented\n", "nop": "#[recorder::nop] ", "allow": "#[allow(dead_code)] ", "must": "#[must_use] ", "cfg": "#[cfg_attr(all(), allow(unused))] ",
         "derive": "#[derive(recorder::P19)] ", "exh": "#[non_exhaustive] "}
HOSTILE = ("mod core {} mod std {} mod alloc {} struct Some_; type Result_ = (); macro_rules! panic { () => {} } macro_rules! match_ { () => {} } "
           "pub struct Pin_; trait Poll { fn poll(&self) {} fn next(&self) {} fn fmt(&self) {} fn map(&self) {} fn deref(&self) {} } impl<T: ?Sized> Poll for T {} "
           "pub mod futures {} pub mod tokio {} pub mod rayon {} pub mod serde {} pub mod http_body {} ")
SHADOW = ["Option", "Result", "Some", "None", "Ok", "Err", "Iterator", "Extend", "Clone", "Copy", "Drop", "Fn", "FnMut", "FnOnce", "AsRef", "AsMut", "From", "Into", "IntoIterator", "FromIterator",
          "DoubleEndedIterator", "ExactSizeIterator", "Default", "Eq", "PartialEq", "Ord", "PartialOrd", "Box", "String", "Vec", "ToString", "ToOwned", "TryFrom", "TryInto"]


def render_item(it, head, fs_names=()):
    """the item, with its attributes after `head`; source text"""
    ps, vs = it["ps"], it["vs"]
    tys = [p["nm"] for p in ps if p["k"] == "type"]
    life = [p["nm"] for p in ps if p["k"] == "life"]
    con = [p["nm"] for p in ps if p["k"] == "const"]

    def bound(p):
        b = p["b"]
        return {"": "", "sized": ": ::core::marker::Sized", "mk": ": probes::Wh", "static": ": 'static", "life": f": {life[0] if life else ''}", "out": f": {life[0] if life else ''}"}[b]

    def par(i, p):
        at = "#[allow(unused)] " if i == 1 and it["at"] else ""
        if p["k"] == "life":
            return at + p["nm"] + bound(p)
        if p["k"] == "const":
            return at + f"const {p['nm']}: usize" + (" = 3" if p["d"] else "")
        return at + p["nm"] + bound(p) + (" = probes::Pr<probes::Full>" if p["d"] else "")
    g = "<" + ", ".join(par(i, p) for i, p in enumerate(ps)) + ("," if it["wh"] == "trail" else "") + ">" if ps else ""
    t0 = tys[0] if tys else "u8"
    wh = {"": "", "trail": f" where {t0}: ::core::marker::Sized,", "mk": f" where {t0}: probes::Wh", "hrtb": f" where for<'z> &'z {t0}: probes::Wh, ::core::option::Option<{t0}>: ::core::marker::Sized", "empty": " where"}[it["wh"]]

    def fld(f):
        if f["k"] == "conc":
            return "probes::Pr<probes::Full>"
        x = ps[f["i"] - 1]["nm"]
        if f["k"] == "par":
            return x
        if f["k"] == "wrap":
            return f"probes::Pr<{x}>"
        r = "".join(f"&{a} " for a in life)
        arr = "(" + ", ".join(f"[(); {n}]" for n in con) + ")"
        return f"probes::Pr<{x}, probes::K00, {r}{arr}>"

    def var(j, v):
        at = ["#[allow(unused)] ", "/// a variant\n", "#[doc(hidden)] "][j % 3] if v["at"] else ""
        k = v["k"]
        body = {"one": lambda: f"({fld(v['f'])})", "unit": lambda: "", "none": lambda: "()", "two": lambda: f"({fld(v['f'])}, {fld(v['f'])})", "rec0": lambda: " {}",
                "rec1": lambda: f" {{ a: {fld(v['f'])} }}", "rec2": lambda: f" {{ a: {fld(v['f'])}, b: {fld(v['f'])} }}"}[k]()
        return at + v["nm"] + body + (" = 7" if v["d"] else "")
    at = "".join(ATTRS[a] for a in it["at"])
    if it["kw"] == "enum":
        tail = "," if vs and len(vs) % 2 else ""
        return f"{head}{at}{it['vis']}enum {it['nm']}{g}{wh} {{ " + ", ".join(var(j, v) for j, v in enumerate(vs)) + tail + " }"
    return head + {"struct": "pub struct E<A>(A);", "union": "pub union E { a: u8 }", "fn": "pub fn e<A>(a: A) -> A { a }", "mod": "pub mod e {}", "trait": "pub trait E {}",
                   "type": "pub type E = u8;", "const": "pub const E: u8 = 1;"}[it["kw"]]


def inst(it, sub=None):
    """the enum with its parameters given; `sub`: {parameter number: type}"""
    a = []
    for i, p in enumerate(it["ps"]):
        a.append({"life": "'static", "const": "3", "type": (sub or {}).get(i + 1, "probes::Pr<probes::Full>")}[p["k"]])
    return it["nm"] + ("<" + ", ".join(a) + ">" if a else "")


def check_c17(ctx):
    thorough = ctx.tier == "thorough"
    kit = Kit(ctx, ["all"], list("abcd"))
    combos = [(w, ALLF) for w in "abcd"]
    tab = kit.tab
    runs = [("kinds", combos[:1], 3, 0), ("shapes", combos, 0, 0), ("items", combos, 0, 24000 if thorough else 3000)]

    def go(r):
        return r[0], tlc(ctx, r[0], r[1], maxlen=r[2], simulate=r[3], workers=4 if r[3] else 2)
    good, bad, seen = [], [], set()
    for mode, got in parallel(go, runs, 3):
        for c in sorted(got, key=lambda c: json.dumps(c, sort_keys=True)):
            k = json.dumps([c["w"], c["l"], c["it"]], sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            ctx.add("items_" + mode, 1)
            c["mode"] = mode
            if not c["ok"]:
                bad.append(c)
            elif c["legal"]:
                good.append(c)
    if not thorough:
        bad = bad[ctx.seed % 2::2] if len(bad) > 1500 else bad
    groups, ngroups = {}, {}
    for i, c in enumerate(good):
        c["id"] = f"c{i}"
        it, w = c["it"], c["w"]
        args = ", ".join(c["l"])
        # (syn does not keep an empty where clause; it means nothing)
        plain = render_item(dict(it, wh="") if it["wh"] == "empty" else it, "#[recorder::observe] ")
        real = render_item(it, f"#[auto_enums::enum_derive({args})] #[recorder::observe] ")
        hs, use = "", ""
        if it["sc"] == "hostile":
            nms = {it["nm"]} | {v["nm"] for v in it["vs"]} | {p["nm"] for p in it["ps"]}
            hs = HOSTILE + " ".join(f"pub struct {x};" for x in SHADOW if x not in nms and x not in c["means"])
        qs, subs = [], []
        for n in sorted(c["means"]):
            qs.append((n, None, f"probes::is_{probes.ident(n)}::<{inst(it)}>()"))
            for j, p in enumerate(it["ps"]):
                if p["k"] == "type":
                    f = next((v["f"]["k"] for v in it["vs"] if v["f"]["k"] != "conc" and v["f"]["i"] == j + 1), None)
                    fk = {v["f"]["k"] for v in it["vs"] if v["f"]["k"] != "conc" and v["f"]["i"] == j + 1}
                    if fk:
                        qs.append((n, j, f"probes::is_{probes.ident(n)}::<{inst(it, {j + 1: 'probes::Pr<probes::But_' + probes.ident(n) + '>'})}>()"))
        if c["pin"]:
            qs.append(("Unpin", None, f"probes::is_Unpin::<{inst(it)}>()"))
            for j, p in enumerate(it["ps"]):
                if p["k"] == "type":
                    if any(v["f"]["k"] != "conc" and v["f"]["i"] == j + 1 for v in it["vs"]):
                        qs.append(("Unpin", j, f"probes::is_Unpin::<{inst(it, {j + 1: 'probes::Pr<probes::Full, probes::K00, ::core::marker::PhantomPinned>'})}>()"))
        c["qs"] = qs
        names = "; ".join(q[2] for q in qs)
        vis = it["vis"]
        c["src"] = (f"mod a {{ {plain} }} pub mod b {{ {hs} {real} pub fn chk() -> [bool; {len(qs)}] {{ [{', '.join(q[2] for q in qs)}] }} }} "
                    f"pub fn chk() -> String {{ if a::OBS != b::OBS {{ return format!(\"{{}}\\t{{}}\", a::OBS, b::OBS); }} b::chk().iter().map(|x| if *x {{ '1' }} else {{ '0' }}).collect() }}")
        c["src"] = c["src"].replace("\n", " \\n ") if False else c["src"].replace("/// documented\n", "#[doc = \" documented\"] ").replace("/// a variant\n", "#[doc = \" a variant\"] ")
        groups.setdefault(("all", w), []).append(c)
    for i, c in enumerate(bad):
        c["id"] = f"n{i}"
        c["src"] = PRE + render_item(c["it"], f"#[enum_derive({', '.join(c['l'])})] ") + " pub mod z {}"
        ngroups.setdefault(("all", c["w"]), []).append(c)
    out, errs = run_all(kit, groups)
    for c in good:
        ctx.traces += 1
        key = f"{c['w']}:{','.join(c['l'])}:{crc(c['it']):08x}"
        rep = {"source": c["src"], "list": c["l"], "item": c["it"]}
        if c["id"] in errs:
            ctx.violation("compile:" + key, f"#[enum_derive({', '.join(c['l'])})] on a valid enum does not compile: {errs[c['id']][0][1][:300]}", dict(rep, errors=errs[c["id"]][:4]))
            continue
        g = out[c["id"]]
        if "\t" in g:
            a, b = g.split("\t")
            ctx.violation("item:" + key, f"the enum was not preserved: `{a}` became `{b}`", rep)
            continue
        want = "".join("1" if q[1] is None else "0" for q in c["qs"])
        if g != want:
            wrong = [(q[0], q[1], x) for q, x, y in zip(c["qs"], g, want) if x != y]
            ctx.violation("impl:" + key, f"#[enum_derive({', '.join(c['l'])})]: wrong about (trait, parameter that lacks it, implemented) {wrong}", rep)
    o, e = run_all(kit, ngroups, meta=True, per=300)
    for c in bad:
        ctx.traces += 1
        ms = [m for k, m in e.get(c["id"], []) if k]
        rep = {"source": c["src"], "list": c["l"], "errors": e.get(c["id"])}
        if not ms:
            ctx.violation(f"accept:{crc(c['it']):08x}", f"expected an error of the macro, got {e.get(c['id'], 'none')}", rep)
        elif any("panicked" in m for m in ms):
            ctx.violation(f"panic:{crc(c['it']):08x}", "the macro panicked", rep)
    ctx.add("accepted", len(good))
    ctx.add("rejected", len(bad))
    for c in good[::max(1, len(good) // 4)]:
        ctx.sample({"source": c["src"][:1500], "ok": True})
    for c in bad[::max(1, len(bad) // 2)]:
        ctx.sample({"source": c["src"][:1500], "ok": False, "errors": e.get(c["id"], [])[:2]})


def check(ctx):
    {"C13": check_c13, "C14": check_c14, "C17": check_c17, "C19": check_c19}[ctx.prop](ctx)
