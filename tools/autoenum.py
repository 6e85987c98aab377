"""Conformance of the real #[auto_enum] with the AutoEnum specification."""
import os, re, subprocess, json, threading
from vlib import *
import render

# words of a diagnostic that names the problem (matched case-insensitively)
KIND = {
    "noelse": r"else",
    "item": r"may only be used on|item|expected",
    "attr-args": r"unexpected token|unexpected|argument",
    "rec": r"#\[rec\]|rec",
    "emptymarker": r"unexpected end of input|expected",
    "dup": r"duplicate|multiple|already",
    "syntax": r"expected|unexpected",
    "shape": r"expected|unexpected|unsupported|attribute",
    "dupmarker": r"custom marker name is duplicated|duplicat",
    "uninit": r"uninitialized",
    "emptyfn": r"empty function|function body|empty",
    "no-branch": r"zero|no branches|two or more|marker",
    "one-branch": r"one branch|only one|two or more|marker",
    "no-marker": r"zero|no |two or more|marker|semicolon",
    "one-marker": r"one|two or more|marker|semicolon",
}

INV = ["EnumIffTwo", "Transparent", "WrapOnce", "DistinctAlternatives", "NoLeftovers"]


def generate(ctx, name, fams):
    """TLC explores families of one kind (exhaustive or random); the cases it emits,
    deduplicated by source text."""
    out = os.path.join(ctx.dir("gen"), name + ".jsonl")
    names = list(fams)
    sim = sum(f.get("simulate", 0) for f in fams.values())
    slices = [{"on": set(f["on"]), "pool": set(f.get("pool", ())), "root": set(f.get("root", ())), "k": f.get("k", 0),
               "bd": f["bound"], "loose": bool(f.get("loose")), "acc": not f.get("loose") and not sim and not f.get("ta")} for f in fams.values()]
    f0 = fams[names[0]]
    run_tlc(ctx, "AutoEnumMC",
            {"Slices": slices, "MaxBits": f0.get("bits", 8), "Sample": bool(sim), "TA": f0.get("ta", False), "OutFile": out},
            [] if f0.get("noinv") else INV + ["Accepted"], name, simulate=sim, depth=f0.get("depth", 200))
    cases = read_jsonl(out)
    os.remove(out) if os.path.exists(out) else None
    seen, res = set(), []
    n = {}
    for c in sorted(cases, key=lambda c: (c["f"], c["d"])):
        c["fam"] = names[c["f"] - 1]
        fam = fams[c["fam"]]
        c["loose"] = bool(fam.get("loose"))
        # the same program in several surface forms
        for j in range(fam.get("alts", 1)):
            c = dict(c, alt=(crc([c["p"], j]) if j else crc(c["p"])) if fam.get("alt", True) else 0)
            c["src"] = render.Renderer(c["alt"], fam).fn(c["p"], "FNAME")
            if c["src"] in seen:
                continue
            seen.add(c["src"])
            n[c["fam"]] = n.get(c["fam"], 0) + 1
            res.append(c)
    log(f"  {name}: {len(cases)} cases, {len(res)} distinct programs {n}")
    return res


LOCK, KEPT = threading.Lock(), set()


def externs(so):
    """the macro and the attributes that compare what it leaves behind"""
    src = os.path.join(VERIF, "harness/keep/lib.rs")
    out = os.path.join(os.path.dirname(os.path.dirname(so)), "libkeep.so")
    with LOCK:
        if out not in KEPT:
            tmp = f"{out}.{os.getpid()}"
            rc, msgs = rustc(src, tmp, {}, crate_type="proc-macro", crate_name="keep")
            if rc:
                raise ToolError("keep: " + str(msgs[:2]))
            os.rename(tmp, out)
            KEPT.add(out)
    return {"auto_enums": so, "keep": out}


def chunk(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def write_crate(path, cases, table):
    pre = render.PRELUDE.strip().splitlines()
    lines = list(pre)
    lineof = {}
    for c in cases:
        lines.append(c["src"].replace("FNAME", "p%d" % c["id"]))
        lineof[len(lines)] = c
    if table:
        lines.append("fn main() { drive(&[" + ", ".join(f'("{c["id"]}", || format!("{{:?}}", p{c["id"]}()), tn(p{c["id"]}))' for c in cases) + "]); }")
    else:
        lines.append("fn main() {}")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return lineof


def is_macro_error(m):
    """a compile_error! (no rustc error code) reported by the macro"""
    return m.get("code") is None and not re.match(r"aborting due to|For more information|Some errors have", m["message"])


def compile_group(ctx, so, gname, cases, edition="2021"):
    """compile accepted programs; returns (binary or None, good cases, bad [(case, msg)])."""
    d = ctx.dir("rs")
    bad = []
    for attempt in range(6):
        path = os.path.join(d, f"{gname}.rs")
        lineof = write_crate(path, cases, True)
        exe = os.path.join(d, gname)
        rc, msgs = rustc(path, exe, externs(so), edition=edition)
        if rc == 0:
            return exe, cases, bad
        hit = {}
        missing = {}
        for m in msgs:
            x = re.match(r"cannot find function `p(\d+)`", m["message"])
            if x:
                missing[int(x[1])] = m["message"]
                continue
            for ln in root_lines(m, path):
                if ln in lineof:
                    hit.setdefault(lineof[ln]["id"], m["message"])
                    break
        hit = hit or missing
        if not hit:
            raise ToolError("unattributed compile failure: " + "; ".join(m["message"] + " " + str([(s["file_name"], s["line_start"]) for s in m["spans"]]) for m in msgs[:5]))
        bad += [(c, hit[c["id"]]) for c in cases if c["id"] in hit]
        cases = [c for c in cases if c["id"] not in hit]
        if not cases or len(bad) > 400:
            return None, [], bad
    return None, [], bad


def run_group(exe, cases):
    inp = []
    for c in cases:
        for r in c["runs"]:
            inp.append(f"{c['id']}\t{','.join(map(str, r['b']))}")
    p = subprocess.run([exe], input="\n".join(inp) + "\n", capture_output=True, text=True, timeout=600)
    got = {}
    for line in p.stdout.splitlines():
        x = line.split("\t")
        if len(x) == 6:
            got[(int(x[0]), x[1])] = (x[2], x[3], x[4], x[5])
    return p.returncode, got


def check_accepted(ctx, so, cases, tag="acc"):
    for i, c in enumerate(cases):
        c["id"] = i
    groups = chunk(cases, NCPU if len(cases) > 64 else 1)

    def one(t):
        gi, g = t
        exe, good, bad = compile_group(ctx, so, f"{tag}{gi}", g)
        rc, got = run_group(exe, good) if exe else (0, {})
        return exe, good, bad, rc, got

    for exe, good, bad, rc, got in parallel(one, list(enumerate(groups))):
        for c, msg in bad:
            if c["loose"] and "type annotations needed" in msg:
                continue    # not a valid program: nothing determines the type of an unused alternative
            ctx.violation("compile:" + sig(c), f"valid program does not compile: {msg[:300]}",
                          {"source": c["src"], "family": c["fam"], "derivation": c["d"], "error": msg})
        for c in good:
            for r in c["runs"]:
                key = (c["id"], ",".join(map(str, r["b"])))
                want = render.expected(r)
                have = got.get(key)
                ty, seen, have = (None, "", have) if have is None else (have[2], have[3], have[:2])
                ctx.traces += 1
                if have != want:
                    ctx.violation("run:" + sig(c), f"decisions {r['b']}: expected {want}, got {have}",
                                  {"source": c["src"], "family": c["fam"], "derivation": c["d"], "bits": r["b"], "expected": want, "got": have})
                    break
                wt, ht = render.ty_str(c["ty"]["t"], c["ty"]["wv"]), render.norm_ty(ty)
                ws = {render.ty_str(t, c["ty"]["wv"]) for t in c["ty"]["sv"]} | {"U<L<7>,L<8>,L<9>>"}
                hs = {render.norm_ty(t) for t in seen.split("|") if t}
                if c["ty"]["t"]["h"] != "!" and not render.ty_match(wt, ht):
                    ctx.violation("alternatives:" + sig(c), f"expected a result of type {wt}, got {ht}",
                                  {"source": c["src"], "family": c["fam"], "derivation": c["d"], "expected": wt, "got": ht})
                    break
                if not all(any(render.ty_match(w, h) for w in ws) for h in hs):
                    ctx.violation("alternatives:" + sig(c), f"expected values of types {ws}, got {hs}",
                                  {"source": c["src"], "family": c["fam"], "derivation": c["d"], "expected": sorted(ws), "got": sorted(hs)})
                    break
        if good:
            c = good[len(good) // 2]
            if c["runs"]:
                ctx.sample({"program": c["src"], "decisions": c["runs"][-1]["b"], "outcome": render.expected(c["runs"][-1])})
    ctx.add("programs_accepted_and_run", len(cases))


def sig(c):
    return "%08x" % zlib.crc32(c["src"].encode())


def diagnose(ctx, so, cases, tag="rej"):
    """macro errors of each program: {id: [message]}, panics included"""
    for i, c in enumerate(cases):
        c["id"] = i
    groups = chunk(cases, NCPU if len(cases) > 64 else 1)

    def one(t):
        gi, g = t
        path = os.path.join(ctx.dir("rs"), f"{tag}{gi}.rs")
        lineof = write_crate(path, g, False)
        rc, msgs = rustc(path, path[:-3] + ".rmeta", externs(so), emit="metadata", crate_type="lib")
        res = {}
        for m in msgs:
            for ln in root_lines(m, path):
                if ln in lineof:
                    res.setdefault(lineof[ln]["id"], []).append((is_macro_error(m), m["message"]))
                    break
        return res

    res = {}
    for r in parallel(one, list(enumerate(groups))):
        res.update(r)
    return res


def check_rejected(ctx, so, cases, tag="rej"):
    """cases the specification rejects: some macro error names one of the expected problems"""
    res = diagnose(ctx, so, cases, tag)
    for c in cases:
        msgs = res.get(c["id"], [])
        ctx.traces += 1
        mac = [m for k, m in msgs if k]
        rep = {"source": c["src"], "family": c["fam"], "derivation": c["d"], "expected": c["errs"], "got": msgs[:6]}
        if any("panicked" in m for m in mac):
            ctx.violation("panic:" + sig(c), "the macro panicked", rep)
        elif c["errs"] and not mac:
            ctx.violation("accept:" + sig(c), f"expected a macro error {c['errs']}, got {msgs[:3]}", rep)
        elif c["errs"] and not any(re.search(KIND[k], m, re.I) for k in c["errs"] for m in mac):
            ctx.violation("message:" + sig(c), f"expected a macro error {c['errs']}, got {mac[:3]}", rep)
    if cases:
        c = cases[len(cases) // 3]
        ctx.sample({"program": c["src"], "expected_errors": c["errs"], "got": [m for _, m in res.get(c["id"], [])][:3]})
    ctx.add("programs_rejected", sum(1 for c in cases if c["errs"]))
    ctx.add("programs_no_panic", len(cases))


def check_families(ctx, fams, features=()):
    so = macro_so(ctx, features)
    acc, rej = [], []
    kinds = {}
    for name, fam in fams.items():
        kinds.setdefault(("random" if fam.get("simulate") else "exhaustive") + ("-ta" if fam.get("ta") else ""), {})[name] = fam
    for kind, fs in kinds.items():
        cs = generate(ctx, kind, fs)
        acc += [c for c in cs if not c["errs"] and c["ok"] and c["cl"]]
        rej += [c for c in cs if c["errs"] or not (c["ok"] and c["cl"])]
    seen = set()
    acc = [c for c in acc if not (c["src"] in seen or seen.add(c["src"]))]
    rej = [c for c in rej if not (c["src"] in seen or seen.add(c["src"]))]
    if acc:
        check_accepted(ctx, so, acc)
    if rej:
        check_rejected(ctx, so, rej)
    ctx.add("exhaustive_families", sum(1 for f in fams.values() if not f.get("simulate")))
    ctx.add("random_families", sum(1 for f in fams.values() if f.get("simulate")))
