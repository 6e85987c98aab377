"""Shared machinery of the checks: building the macro from /repo, running TLC,
compiling and running rendered programs, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 8)
TOOLCHAIN = "nightly-2025-03-20"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTDOCFLAGS", None)
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop, self.tier, self.seed = prop, TIER, SEED
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []          # (signature, description, replay dict)
        self.known = [k for k in load_known() if k["property"] == prop]
        self.assumptions = []

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, sig, what, replay):
        self.violations.append((sig, what, replay))

    def finish(self, level="model_checking"):
        new, hit = [], {}
        for sig, what, rep in self.violations:
            k = next((k for k in self.known if k["status"] == "open" and k["signature"] == sig), None)
            if k:
                hit[k["signature"]] = what
            else:
                new.append((sig, what, rep))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            if k["status"] == "open" and k["signature"] in hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump([{"signature": s, "what": w, "replay": r} for s, w, r in new[:50]], f, indent=1, default=str)
            for s, w, r in new[:5]:
                log(f"  {s}: {w}")
                if isinstance(r, dict) and "source" in r:
                    log("    " + str(r["source"])[:600])
            log(f"{self.prop}: {len(new)} violations")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        log(f"{self.prop}: ok states={self.states} traces={self.traces} {ev['wall_s']}s")
        return 0


def load_known():
    """known_findings.txt: `open: property=.. sig=.. what` / `fixed: property=.. commit what`."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m:
                res.append({"status": "open", "property": m[1], "signature": m[2], "what": m[3]})
    return res


# ---------------------------------------------------------------- TLC

def tla_set(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(set(xs))) + "}"


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_val(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_val(x) for x in sorted(v, key=str)) + "}"
    raise ValueError(v)


def run_tlc(ctx, module, consts, invariants, name, simulate=0, depth=200, deadlock=False, props=(), timeout=700, workers=None, spec="Spec", extra=(), allow_violation=False, jvm="-Xmx6g", seed=None):
    """Run TLC on spec/<module>.tla; returns stats. An error in the model is a ToolError.
    A simulation is split over several TLC processes of one worker each and different seeds (TLC's
    workers draw the same sequence of random elements)."""
    w = workers or NCPU
    if simulate and w > 1:
        w = max(1, min(w, simulate // 25))
        def part(k):
            c = dict(consts)
            if c.get("OutFile"):
                c["OutFile"] += f".{k}"
            return run_tlc(ctx, module, c, invariants, f"{name}-{k}", simulate=(simulate + w - 1) // w, depth=depth, deadlock=deadlock, props=props, timeout=timeout,
                           workers=1, spec=spec, extra=extra, allow_violation=allow_violation, jvm="-Xmx2g", seed=(seed or ctx.seed) * 1000 + k)
        sts = parallel(part, range(w))
        if consts.get("OutFile"):
            with open(consts["OutFile"], "a") as f:
                for k in range(w):
                    if os.path.exists(consts["OutFile"] + f".{k}"):
                        f.write(open(consts["OutFile"] + f".{k}").read())
        return {"out": "\n".join(s["out"] for s in sts), "rc": max(s["rc"] for s in sts), "wall": max(s["wall"] for s in sts), "ok": all(s["ok"] for s in sts),
                "states": sum(s["states"] for s in sts), "distinct": sum(s["distinct"] for s in sts)}
    d = ctx.dir("tlc-" + name)
    cfg = [f"SPECIFICATION {spec}", "CONSTANTS"]
    defs = {k: v for k, v in consts.items() if isinstance(v, (list, tuple, dict))}
    for k, v in consts.items():
        cfg.append(f" {k} <- The{k}" if k in defs else f" {k} = {tla_val(v)}")
    with open(os.path.join(d, "Run.tla"), "w") as f:
        f.write(f"---- MODULE Run ----\nEXTENDS {module}\n" + "".join(f"The{k} == {tla_val(v)}\n" for k, v in defs.items()) + "====\n")
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if props:
        cfg.append("PROPERTIES " + " ".join(props))
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    path = os.path.join(d, "M.cfg")
    with open(path, "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["tlc", "-workers", str(w), "-metadir", os.path.join(d, "meta"), "-config", path, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={max(1, simulate // w)}", "-depth", str(depth), "-seed", str(seed or ctx.seed)]
    cmd += list(extra) + ["Run.tla"]
    e = env()
    e["JAVA_TOOL_OPTIONS"] = jvm + " -Xss64m -Djava.io.tmpdir=" + d + " -DTLA-Library=" + SPEC
    t = time.time()
    r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    out = r.stdout
    st = {"out": out, "rc": r.returncode, "wall": time.time() - t, "states": 0, "distinct": 0}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out) or re.findall(r"Progress: ([\d,]+) states", out)
        if m:
            st["states"] = st["distinct"] = int(m[-1].replace(",", ""))
    ok = ("No error has been found" in out) or (simulate and r.returncode == 0 and "Error:" not in out)
    st["ok"] = bool(ok)
    if not ok and not allow_violation:
        raise ToolError(f"TLC failed on {module}/{name}:\n" + "\n".join(l for l in out.splitlines() if "rror" in l or "violated" in l)[:1500] + out[-3000:] + r.stderr[-300:])
    ctx.states += st["distinct"]
    ctx.transitions += st["states"]
    log(f"  tlc {module}/{name}: {st['states']} states ({st['distinct']} distinct) {st['wall']:.1f}s")
    return st


def read_jsonl(path, key=None):
    seen, res = set(), []
    if not os.path.exists(path):
        return res
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            if line.startswith('"') and line.endswith('"') and not line.startswith('"{') is False:
                pass
            try:
                x = json.loads(line)
                if isinstance(x, str):
                    x = json.loads(x)
            except ValueError:
                continue
            k = json.dumps(x[key]) if key else line
            if k in seen:
                continue
            seen.add(k)
            res.append(x)
    return res


# ---------------------------------------------------------------- building the macro

def cargo_harness(ctx, name, features, deps="", toolchain=None, src=None, extra_toml="", std=True):
    """Build a harness crate depending on /repo's auto_enums; returns externs {crate: path}, -L dirs."""
    d = ctx.dir("cargo-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    feats = ", ".join('"%s"' % f for f in features)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "h_{name}"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
auto_enums = {{ path = "{REPO}"{', default-features = false' if not std else ''}, features = [{feats}] }}
{deps}
{extra_toml}
""")
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(src or "")
    shutil.copy("/opt/vp/ws/Cargo.lock", os.path.join(d, "Cargo.lock"))
    e = env()
    target = os.path.join(VERIF, "build", "target-" + name)
    e["CARGO_TARGET_DIR"] = target
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise ToolError("building auto_enums failed:\n" + r.stderr[-4000:] + "\n" + "\n".join(
            json.loads(l).get("message", {}).get("rendered", "") for l in r.stdout.splitlines()
            if l.startswith("{") and json.loads(l).get("reason") == "compiler-message")[-4000:])
    ext, dirs = {}, set()
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for fn in m["filenames"]:
                if fn.endswith((".so", ".rlib")):
                    ext.setdefault(n, []).append((m["package_id"], fn))
                    dirs.add(os.path.dirname(fn))
    dirs.add(os.path.join(target, "debug", "deps"))
    return ext, sorted(dirs)


def macro_so(ctx, features=()):
    ext, _ = cargo_harness(ctx, "base" + "".join("_" + f.replace("-", "") for f in features), features)
    return ext["auto_enums"][0][1]


def rustc(src, out, externs, ldirs=(), emit="link", extra=(), timeout=600, edition="2021", crate_type="bin", cap=True, crate_name="case"):
    cmd = ["rustc", "--edition", edition, "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4",
           "--error-format=json", "--crate-type", crate_type, "--crate-name", crate_name, "-o", out, "--emit=" + emit]
    if cap:
        cmd += ["--cap-lints", "allow"]
    for n, p in externs.items():
        cmd += ["--extern", f"{n}={p}"]
    for l in ldirs:
        cmd += ["-L", "dependency=" + l]
    cmd += list(extra) + [src]
    r = subprocess.run(cmd, env=env(), capture_output=True, text=True, timeout=timeout)
    msgs = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("level") in ("error", "error: internal compiler error"):
                msgs.append(m)
        elif line.strip() and r.returncode != 0:
            msgs.append({"message": line, "level": "error", "spans": [], "code": None, "children": []})
    return r.returncode, msgs


def root_lines(msg, path):
    """line numbers in `path` a diagnostic belongs to (following macro expansions outward)."""
    res = []
    spans = sorted(msg.get("spans", []), key=lambda s: not s.get("is_primary"))
    if any(s.get("is_primary") for s in spans):
        spans = [s for s in spans if s.get("is_primary")]
    for s in spans:
        while s.get("expansion") and s["file_name"] != path:
            s = s["expansion"]["span"]
        # outermost user line
        t = s
        while t.get("expansion"):
            t = t["expansion"]["span"]
        for x in (s, t):
            if x["file_name"] == path:
                res.append(x["line_start"])
    return res


def parallel(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def crc(x):
    return zlib.crc32(json.dumps(x, sort_keys=True).encode())
