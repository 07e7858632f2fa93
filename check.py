#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property
   check.py --setup                       build the tools

Extracts the functions under contract from /repo's working tree, lets Verus discharge every obligation of the
units the property depends on, and runs the executable counterpart of the contracts (harness) on the real crate:
to look for a failing input, and as the bounded stand-in for functions the verifier cannot take.
Exit 0: held; exit 1 with a VIOLATION line: broken."""
import json, os, re, signal, subprocess, sys, time, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
CFG = json.load(open(os.path.join(V, "units.json")))


def sh(cmd, timeout=None, **kw):
    """run a command in a process group of its own; a command that runs out of time goes with all it started"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def tree_hash(pats, root):
    h = hashlib.sha256()
    for p in sorted(set(f for q in pats for f in glob.glob(os.path.join(root, q), recursive=True))):
        if os.path.isfile(p) and "/target/" not in p:
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


REPO_PATS = ["mutagenyx*/**/*.rs", "mutagenyx*/Cargo.toml", "Cargo.toml", "Cargo.lock"]


def stamp(name, h):
    p = os.path.join(B, name + ".stamp")
    return os.path.exists(p) and open(p).read() == h


def set_stamp(name, h):
    open(os.path.join(B, name + ".stamp"), "w").write(h)


def build_vx():
    h = tree_hash(["tools/vx/src/*.rs", "tools/vx/Cargo.toml"], V)
    exe = os.path.join(B, "vx/release/vx")
    if not (stamp("vx", h) and os.path.exists(exe)):
        r = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "vx")], cwd=os.path.join(V, "tools/vx"), env=ENV)
        if r.returncode:
            raise SystemExit("building the extractor failed:\n" + r.stderr[-3000:])
        set_stamp("vx", h)
    return exe


def touch_sources():
    # cargo goes by modification time; make sure a changed source is always seen
    pass


TWINS = [("harness/src/twin_vy/gen.rs", ["np_ops.vrs", "ppv_spec.vrs", "ppv_kind.vrs"]),
         ("harness/src/twin_sol/gen.rs", ["np_ops.vrs", "pps_spec.vrs", "pps_kind.vrs"])]


def build_harness():
    """the harness and the command line tool, from /repo's working tree; None and the compiler output when it does not build"""
    for out, ins in TWINS:  # the executable twins of the spelling specifications
        sh([sys.executable, os.path.join(V, "tools/twin.py"), os.path.join(V, out)] + [os.path.join(V, "verus", i) for i in ins])
    h = tree_hash(["harness/src/*.rs", "harness/src/*/*.rs", "harness/Cargo.toml", "harness/.cargo/*"], V) + tree_hash(REPO_PATS, REPO)
    exe = os.path.join(B, "harness/debug/harness")
    cli = os.path.join(B, "cli/debug/mutagenyx")
    if stamp("harness", h) and os.path.exists(exe) and os.path.exists(cli):
        return exe, cli, ""
    for d in ("harness", "cli"):
        for f in glob.glob(os.path.join(B, d, "debug/.fingerprint/mutagenyx*")) + glob.glob(os.path.join(B, d, "debug/.fingerprint/harness*")):
            shutil.rmtree(f, ignore_errors=True)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ["cargo", "build", "--offline", "--target-dir", os.path.join(B, "harness")], cwd=os.path.join(V, "harness"), env=ENV)
        b = ex.submit(sh, ["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "mutagenyx", "--target-dir", os.path.join(B, "cli")], cwd=REPO, env=ENV)
        a, b = a.result(), b.result()
    if a.returncode or b.returncode:
        return None, None, (a.stderr if a.returncode else b.stderr)[-4000:]
    set_stamp("harness", h)
    return exe, cli, ""


# --------------------------------------------------------------------------- deductive part
UNIT_SECONDS = 640 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000
VERUS_FLAGS = ["--triggers-mode", "silent", "--num-threads", "8", "--no-report-long-running", "--output-json", "--time-expanded", "--error-format=json",
               "--smt-option", "timeout=100000"]
TAG = re.compile(r"//\s*\[([A-Z0-9, ]+)\]")


def classify(msg):
    m = msg.lower()
    if "rlimit" in m or "resource limit" in m or "took too long" in m:
        return "limit"
    if any(k in m for k in ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "assertion not satisfied",
                            "possible arithmetic", "possible division", "possible bit shift", "recommendation not met", "decreases not satisfied",
                            "unreachable", "loop invariant", "could not prove termination", "postcondition might not", "not satisfied", "possible truncation", "index out of", "cannot show")):
        return "obligation"
    return "construct"


def run_unit(u, prop, work, canary=False):
    """returns a dict: functions, failures [{fn, props, msg, rendered, clause}], degraded {fn: why}, verified, smt_ms, error"""
    vx = os.path.join(B, "vx/release/vx")
    tpl = os.path.join(V, "verus", u + ".vrs")
    out, rep = os.path.join(work, u + ".rs"), os.path.join(work, u + ".json")
    trust, why = [], {}
    t0 = time.time()
    for attempt in range(12):
        env = dict(ENV)
        if canary:
            env["VX_CANARY"] = "1"
        r = sh([vx, REPO, tpl, out, rep, ",".join(trust)], env=env)
        if r.returncode:
            return dict(unit=u, error="extraction failed: " + r.stderr[-500:], functions=[], failures=[], degraded=why, verified=0, smt_ms=0, wall=time.time() - t0, attempts=attempt + 1, details={})
        report = json.load(open(rep))
        for f in report["functions"]:
            if f.get("degraded") and f["path"] not in why:
                why[f["path"]] = "; ".join(p["what"] if isinstance(p, dict) and "what" in p else str(p) for p in report["problems"] if f["path"] in json.dumps(p))[:300] or "annotation no longer fits"
        src = open(out).read().split("\n")
        try:
            # a run has 900 s for everything
            r = sh(["verus", os.path.basename(out)] + VERUS_FLAGS, cwd=work, env=ENV, timeout=max(1, UNIT_SECONDS - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            return dict(unit=u, error="verifier timed out", functions=report["functions"], failures=[], degraded=why, verified=0, smt_ms=0, wall=time.time() - t0, attempts=attempt + 1, details={}, report=report)
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
        fns = [f for f in report["functions"] if f.get("out_lines")]

        def owner(d):
            spans = sorted(d["spans"], key=lambda s: s["is_primary"])
            best = None
            for s in spans:
                for f in fns:
                    a, b = f["out_lines"]
                    if a <= s["line_start"] <= b and not f.get("trusted"):
                        best = f
                        if not (s["is_primary"] and len(spans) > 1):
                            return f
            return best

        new, fails, stray = [], [], []
        for d in diags:
            k = "construct" if d.get("code") else classify(d["message"])
            f = owner(d)
            if k == "obligation":
                lines = set()
                for s in d["spans"]:
                    for n in range(s["line_start"], s["line_end"] + 1):
                        lines.add(n)
                tags = set()
                for n in lines:
                    m = TAG.search(src[n - 1]) if n <= len(src) else None
                    if m:
                        tags |= set(x.strip() for x in m.group(1).split(","))
                fp = set(f.get("props") or []) if f else set()
                if "precondition" in d["message"] or "arithmetic" in d["message"] or "division" in d["message"]:
                    tags = tags or ({"C08"} if not fp or "C08" in fp or u in ("sol", "vy") else set())
                ps = (tags & fp) or tags or fp
                fails.append(dict(fn=f["path"] if f else "(lemma)", file=(f or {}).get("file", ""), line=(f or {}).get("line", 0), props=sorted(ps), msg=d["message"],
                                  clause=[s["text"][0]["text"].strip() for s in d["spans"] if s.get("text")][:3], rendered=d["rendered"]))
            elif f is not None:
                if f["path"] not in new:
                    new.append(f["path"])
                    why[f["path"]] = (("E" if k == "construct" else "") + " " + d["message"])[:300].strip()
            else:
                stray.append(d["message"])
        try:
            res = json.loads(r.stdout[r.stdout.index("{"):])
        except ValueError:
            res = {}
        vr = res.get("verification-results", {})
        if new and not canary:
            trust += [p for p in new if p not in trust]
            continue
        if not vr or (stray and not vr.get("verified")) or (r.returncode and not fails and not stray and not vr.get("errors")):
            return dict(unit=u, error=("; ".join(stray)[:400] or r.stderr[-400:] or "no result"), functions=report["functions"], failures=[], degraded=why, verified=0, smt_ms=0, wall=time.time() - t0, attempts=attempt + 1, details={}, report=report)
        det = {}
        for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                det[fb["function"]] = dict(ms=fb.get("time", 0), ok=fb.get("success", True))
        return dict(unit=u, error=None, functions=report["functions"], failures=fails, degraded=why, verified=vr.get("verified", 0), errors=vr.get("errors", 0),
                    smt_ms=res.get("times-ms", {}).get("smt", {}).get("total", 0), wall=time.time() - t0, attempts=attempt + 1, details=det, report=report, stray=stray, src=src)
    return dict(unit=u, error="too many unsupported functions", functions=[], failures=[], degraded=why, verified=0, smt_ms=0, wall=time.time() - t0, attempts=12, details={})


def trusted_base(u):
    """mechanical scan for everything the unit assumes"""
    seen, out = set(), []

    def walk(p):
        if p in seen:
            return
        seen.add(p)
        text = open(p).read()
        for m in re.finditer(r"^//@include (\S+)", text, re.M):
            walk(os.path.join(os.path.dirname(p), m.group(1)))
        lines = text.split("\n")
        for i, l in enumerate(lines):
            if re.search(r"external_body|external_type_specification|assume_specification|\badmit\(|\bassume\(|axiom fn|uninterp ", l) and not l.strip().startswith("// "):
                n = ""
                for k in range(i, min(i + 4, len(lines))):
                    m = re.search(r"(?:fn|struct|enum)\s+([A-Za-z0-9_]+)", lines[k])
                    if m:
                        n = m.group(1)
                        break
                if n:
                    out.append("%s:%s" % (os.path.basename(p), n))
    walk(os.path.join(V, "verus", u + ".vrs"))
    return out


# --------------------------------------------------------------------------- one property
def main():
    if sys.argv[1] == "--setup":
        with Lock():
            build_vx()
            exe, cli, err = build_harness()
        if not exe:
            print(err)
            return 1
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    with Lock():
        build_vx()
        exe, cli, err = build_harness()
    work = os.path.join(B, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    spec = CFG["properties"][prop]
    units = spec["units"]

    hres = {"cases": 0, "distinct": 0, "kinds": {}, "samples": [], "fails": [], "skipped": "the crate does not build" if not exe else ""}

    def harness():
        if not exe or not spec.get("harness", True):
            return
        o = os.path.join(work, "h.json")
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        try:
            r = sh([exe, prop, tier, str(seed), o], env=dict(ENV, VERIF_CLI=cli, VERIF_SCRATCH=scratch), timeout=700)
            if os.path.exists(o):
                hres.update(json.load(open(o)))
            hres["rc"] = r.returncode
            if r.returncode not in (0, 1, 3) or not os.path.exists(o):
                hres["crash"] = (r.stderr or "")[-800:]
        except subprocess.TimeoutExpired:
            hres["crash"] = "timed out"

    with ThreadPoolExecutor(8) as ex:
        hf = ex.submit(harness)
        rs = list(ex.map(lambda u: run_unit(u, prop, work), units))
        hf.result()
        can = list(ex.map(lambda u: run_unit(u, prop, os.path.join(work), canary=True), [])) if tier != "thorough" else []
    if tier == "thorough":
        cdir = os.path.join(work, "canary")
        os.makedirs(cdir)
        with ThreadPoolExecutor(4) as ex:
            can = list(ex.map(lambda u: run_unit(u, prop, cdir, canary=True), units))

    if os.environ.get("VERIF_KEEP"):
        print("work directory:", work)
    viol = []
    known = [l.split(" ", 1)[1].strip() for l in open(os.path.join(V, "known-findings.txt")) if l.startswith("known:")] if os.path.exists(os.path.join(V, "known-findings.txt")) else []
    printed_known = []

    def is_known(text):
        for k in known:
            # known: property=<id> match=<text> | description
            m = re.match(r"property=(\S+) match=(.*?) \| (.*)", k)
            if m and m.group(1) == prop and m.group(2) in text:
                if m.group(3) not in printed_known:
                    printed_known.append(m.group(3))
                return True
        return False

    proof_fails = []
    for r in rs:
        for f in r["failures"]:
            if prop in f["props"] and not is_known(f["fn"] + " " + " ".join(f["clause"])):
                proof_fails.append(dict(f, unit=r["unit"]))
    hfails = [f for f in hres.get("fails", []) if not is_known(json.dumps(f))]

    if exe is None:
        print("note: /repo does not build; only the deductive part ran\n" + err[-1500:])
    replay = os.path.join(rdir, prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    if hfails or proof_fails:
        json.dump({"property": prop, "failing_inputs": hfails, "undischarged": proof_fails, "how": "python3 check.py %s %s with VERIF_SEED=%d; each failing input was run against the real crate by the harness" % (prop, tier, seed)}, open(replay, "w"), indent=1)
        for f in proof_fails[:6]:
            print("UNDISCHARGED unit=%s function=%s (%s:%s): %s | %s" % (f["unit"], f["fn"], f["file"], f["line"], f["msg"], " / ".join(f["clause"])[:240]))
        for f in hfails[:3]:
            print("FAILING INPUT %s: %s: %s" % (f["check"], f["why"][:400], json.dumps(f["input"])[:800]))
        viol = ["VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(replay, V), "" if hfails else " no-failing-input-found")]

    # ---------------- evidence
    contract, obligations, discharged, degraded, trusted, smt = [], 0, 0, {}, set(), 0
    for r in rs:
        smt += r["smt_ms"]
        degraded.update({k: v for k, v in r["degraded"].items()})
        if r["error"]:
            degraded["unit " + r["unit"]] = r["error"]
        badfn = set(f["fn"] for f in r["failures"])
        for f in r["functions"]:
            mine = not f.get("props") or prop in f["props"]
            if not mine:
                continue
            st = "proved in another unit" if f.get("assumed") else "trusted" if f.get("trusted") and not f.get("degraded") else "degraded" if (f.get("degraded") or f["path"] in r["degraded"] or r["error"]) else "undischarged" if f["path"] in badfn else "proved"
            contract.append({"function": f["path"], "file": f["file"], "line": f["line"], "unit": r["unit"], "status": st, "loops": f.get("loops", 0), "rules": f.get("rules", {}), "substitutions": f.get("substs", [])})
        obligations += r["verified"] + r.get("errors", 0)
        discharged += r["verified"]
        trusted |= set(trusted_base(r["unit"]))
    vac = []
    for r in can:
        hit = set(f["fn"] for f in r["failures"])
        for f in r["functions"]:
            if not f.get("trusted") and not f.get("degraded") and f["path"] not in hit and not r["error"]:
                vac.append(r["unit"] + ":" + f["path"])
    level = spec["level"]
    cov = {}
    if units:
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd="vx /repo verus/<unit>.vrs; verus <unit>.rs %s; units: %s" % (" ".join(VERUS_FLAGS[:5]), ", ".join(units)),
                   trusted_base=sorted(trusted), backend="Verus 0.2026.09.13 / Z3", solver_ms=smt, functions_under_contract=contract,
                   functions_proved=sum(c["status"] == "proved" for c in contract), degraded_to_bounded=degraded,
                   units={r["unit"]: {"verified": r["verified"], "errors": r.get("errors", 0), "wall_s": round(r["wall"], 1), "attempts": r["attempts"], "error": r["error"], "lost_or_misfit": (r.get("report") or {}).get("problems", [])} for r in rs})
    if tier == "thorough" and units:
        cov["vacuity"] = {"functions_probed": sum(1 for r in can for f in r["functions"] if not f.get("trusted")), "not_reachable": vac}
    if spec.get("harness", True):
        cov.update(evaluations=hres.get("cases", 0), distinct_nontrivial=hres.get("distinct", 0), rule=spec.get("rule", CFG["rule"]), samples=hres.get("samples", []) or ["none"],
                   bounded_kinds=hres.get("kinds", {}), bounded_note="bounded: the harness samples inputs; it decides nothing on its own where the proof is complete")
        if hres.get("crash") or hres.get("hang"):
            cov["harness_incomplete"] = hres.get("crash") or hres.get("hang")
    if not cov:
        cov["explanation"] = "nothing ran"
    assumptions = CFG["assumptions"] + spec.get("assumptions", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    for k in printed_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in viol:
        print(v)
    if not viol:
        print("%s: held (%d obligations discharged of %d, %d bounded cases%s) in %.1f s" % (prop, discharged, obligations, hres.get("cases", 0), "; degraded: " + ", ".join(degraded) if degraded else "", time.time() - t0))
        if degraded:
            for k, v in list(degraded.items())[:10]:
                print("  degraded to the bounded stand-in: %s (%s)" % (k, v))
        if vac:
            print("  warning, assert(false) was provable in: " + ", ".join(vac))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
