"""Conformance of the derived implementations with the Delegation specification (C10, C11, C12, C16)."""
import json, os, re, shutil, subprocess
from vlib import *

SRC = os.path.join(VERIF, "harness", "deleg")
STD = ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "Extend", "Debug", "Display", "Binary", "LowerExp",
       "LowerHex", "Octal", "UpperExp", "UpperHex", "Pointer", "fmt::Write", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "AsRef",
       "AsMut", "FnOnce", "FnMut", "Fn", "Read", "io::Read", "BufRead", "io::BufRead", "Write", "io::Write", "Seek", "io::Seek"]
POLL = ["Future", "Coroutine", "futures03::Stream", "futures03::Sink", "futures03::AsyncRead", "futures03::AsyncBufRead", "futures03::AsyncWrite",
        "futures03::AsyncSeek", "tokio1::AsyncRead", "tokio1::AsyncBufRead", "tokio1::AsyncWrite", "tokio1::AsyncSeek", "http_body1::Body"]
T03 = ["tokio03::" + x for x in ("AsyncRead", "AsyncBufRead", "AsyncWrite", "AsyncSeek")]
T02 = ["tokio02::" + x for x in ("AsyncRead", "AsyncBufRead", "AsyncWrite", "AsyncSeek")]
EXT = ["futures01::Future", "futures01::Stream", "futures01::Sink", "tokio01::AsyncRead", "tokio01::AsyncWrite", "rayon::ParallelIterator",
       "rayon::IndexedParallelIterator", "rayon::ParallelExtend", "serde::Serialize"]
ERR = ["Error", "error::Error", "Error+"]
PROPS = {
    "C10": {"std": STD, "std2": ["FusedIterator", "TrustedLen"]},
    "C11": {"poll": POLL, "t03": T03, "t02": T02},
    "C12": {"ext": EXT},
    "C16": {"std": ERR},
}
FEATURES = {
    "std": ["ops", "fmt", "convert", "unstable", "fn_traits"], "std2": ["unstable", "trusted_len"],
    "poll": ["unstable", "coroutine_trait", "futures03", "tokio1", "http_body1"],
    "t03": ["tokio03"], "t02": ["tokio02"],
    "ext": ["futures01", "tokio01", "rayon", "serde"],
}
CRATES = {
    "futures03": 'futures03_crate = { package = "futures-util", version = "0.3", default-features = false, features = ["std", "io", "sink"] }',
    "futures01": 'futures01_crate = { package = "futures", version = "0.1" }',
    "tokio1": 'tokio1_crate = { package = "tokio", version = "1", default-features = false }',
    "tokio03": 'tokio03_crate = { package = "tokio", version = "0.3", default-features = false }',
    "tokio02": 'tokio02_crate = { package = "tokio", version = "0.2", default-features = false }',
    "tokio01": 'tokio01_crate = { package = "tokio", version = "0.1", default-features = false, features = ["io"] }',
    "rayon": 'rayon_crate = { package = "rayon", version = "1" }',
    "serde": 'serde_crate = { package = "serde", version = "1" }',
    "http_body1": 'http_body1_crate = { package = "http-body", version = "1", default-features = false }',
}
INV = ["InvOnlyActive", "InvOnceEach", "InvSameArgs", "InvSameResult", "InvSameCallbacks", "InvPinned", "InvSource", "NeverStuck"]


def build(ctx, prop):
    """Build the probes of one property; [(bin, exe)], [compile errors of the probes]."""
    bins = PROPS[prop]
    feats = sorted({f for b in bins for f in FEATURES[b]})
    d = ctx.dir("cargo-deleg")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "deleg"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\n[workspace]\n[dependencies]\n')
        f.write(f'auto_enums = {{ path = "{REPO}", features = {json.dumps(feats)} }}\n')
        for x in feats:
            if x in CRATES:
                f.write(CRATES[x] + "\n")
        for b in bins:
            f.write(f'[[bin]]\nname = "{b}"\npath = "{SRC}/{b}.rs"\n')
    shutil.copy("/opt/vp/ws/Cargo.lock", os.path.join(d, "Cargo.lock"))
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "build", "target-deleg-" + prop)
    r = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True, timeout=800)
    exes, errs = {}, []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            exes[m["target"]["name"]] = m["executable"]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["message"]["spans"]:
            if m["target"]["name"] not in bins:
                raise ToolError("building auto_enums failed:\n" + m["message"]["rendered"][:4000])
            errs.append((m["target"]["name"], m["message"]))
    if r.returncode != 0 and not errs:
        raise ToolError("building the probes failed:\n" + r.stderr[-3000:])
    return exes, errs


def trait_of(b, msg):
    """the `enums!` invocation a compile error belongs to"""
    path = os.path.join(SRC, b + ".rs")
    lines = open(path).read().splitlines()
    for n in root_lines(msg, path):
        m = re.match(r"\s*enums!\((\w+), \w+, \[[^\]]*\], (.*)\);", lines[n - 1])
        if m:
            return m[2]
        m = re.match(r"\s*fmt_trait!\((\w+)", lines[n - 1])
        if m:
            return "fmt::" + m[1]
    return None


def histories(ctx, prop, traits):
    thorough = ctx.tier == "thorough"
    runs = [("args", 1, 0), ("shapes", 1, 0), ("pairs", 2, 0), ("random", 4, 120 if thorough else 12), ("random", 9, 60 if thorough else 6)]
    if thorough:
        runs += [("shapes", 2, 0)] if len(traits) < 20 else []
        runs += [("pairs", 3, 0)] if len(traits) < 20 else []
    seen, res = set(), []

    def one(t):
        k, (mode, n, per) = t
        out = os.path.join(ctx.dir("hist"), f"{k}.jsonl")
        run_tlc(ctx, "DelegationMC", {"Traits": set(traits), "MaxCalls": n, "Mode": mode, "OutFile": out}, INV, f"{mode}{n}",
                simulate=per * len(traits), depth=100, workers=4, jvm="-Xmx4g")
        return mode, n, read_jsonl(out)

    for mode, n, hs in parallel(one, list(enumerate(runs)), 3):
        for h in hs:
            if mode == "random" and any(c[0] == "to_string" and c[2] == 0 for c in h["h"]):
                continue
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(h)
                ctx.add(f"histories_{mode}{n}", 1)
    return res


def check(ctx):
    prop = ctx.prop
    exes, errs = build(ctx, prop)
    for b, m in errs:
        t = trait_of(b, m)
        mine = t is None or any(x.split("::")[-1].rstrip("+") in t for x in PROPS[prop][b])
        if "std" in PROPS[prop] and t is not None:
            mine = ("Error" in t) == (prop == "C16")
        if mine:
            ctx.violation(f"compile:{t}", f"the derive of {t} does not compile: {m['message'][:300]}", {"error": m["rendered"][:3000]})
    if ctx.violations:
        return
    if set(exes) != set(PROPS[prop]):
        raise ToolError("the probes were not built")
    traits = [t for b in PROPS[prop].values() for t in b]
    hs = histories(ctx, prop, traits)
    bad = 0
    for b, ts in PROPS[prop].items():
        mine = [h for h in hs if h["t"] in ts]
        inp = "".join(f"{i}\t{h['t']}\t{h['s']}\t{h['n']}\t{h['v']}\t{';'.join(','.join(map(str, c)) for c in h['h'])}\n" for i, h in enumerate(mine))
        p = subprocess.run([exes[b]], input=inp, capture_output=True, text=True, timeout=600)
        got = {}
        for line in p.stdout.splitlines():
            try:
                x = json.loads(line)
            except ValueError:
                continue
            got[x["id"]] = x
        tr = []
        for i, h in enumerate(mine):
            if i not in got:
                ctx.violation(f"crash:{h['t']}", f"{h['t']}: the program stopped (status {p.returncode})", {"history": h})
                break
            h["ev"], h["tw"] = got[i]["ev"], got[i]["tw"]
            tr.append(h)
        groups = [tr[k::4] for k in range(4)]

        def validate(t):
            k, g = t
            if not g:
                return []
            f, o = os.path.join(ctx.dir("tr"), f"{b}{k}.jsonl"), os.path.join(ctx.dir("tr"), f"{b}{k}.bad")
            with open(f, "w") as fh:
                for h in g:
                    fh.write(json.dumps(h) + "\n")
            run_tlc(ctx, "DelegationTrace", {"InFile": f, "OutFile": o}, [], f"trace-{b}{k}", workers=2, jvm="-Xmx6g")
            return [(g[x["i"] - 1], x) for x in read_jsonl(o)]

        for res in parallel(validate, list(enumerate(groups)), 4):
            for h, x in res:
                at = h["ev"][x["l"] - 1] if x["l"] <= len(h["ev"]) else "end"
                last = [c[0] for c in h["h"]]
                ctx.violation(f"{h['t']}:{h['s']}{h['n']}:{h['v']}:{last[0]}",
                              f"{h['t']} on alternative {h['v']} of {h['s']}{h['n']}, calls {h['h']}: rejected at {at} ({x['why']}): {h['ev']}",
                              {"history": {k: h[k] for k in ("t", "s", "n", "v", "h")}, "trace": h["ev"], "twin": h["tw"], "rejected_at": x["l"], "why": x["why"]})
        ctx.traces += len(tr)
        ctx.add("traits", len(ts))
        if tr:
            h = tr[len(tr) * 2 // 3]
            ctx.sample({k: h[k] for k in ("t", "s", "n", "v", "h", "ev")})
