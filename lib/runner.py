import json, os, re, shutil, signal, subprocess, sys, time, resource, hashlib, tempfile
import unit as U
from rustx import LostAnchor
from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = U.REPO
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"


# ----------------------------------------------------------------- Verus
class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = None  # ok | failed | undecided | lost
        self.verified = 0
        self.errors = []  # (message, function, source line text)
        self.reason = ""
        self.fns = []
        self.assumptions = []
        self.probes = 0
        self.wall = 0.0
        self.smt_ms = 0
        self.cmd = ""
        self.log = ""
        self.rewrites = []


def scan_assumptions(text):
    out = []
    for m in re.finditer(r"\b(assume_specification\s*(?:<[^\[]*>)?\s*\[[^\]]*\]|admit\s*\(|assume\s*\(|external_body\]?[^\n]*\n?[^\n{;]*)", text):
        out.append(re.sub(r"\s+", " ", m.group(1)).strip()[:160])
    return out


def fn_line(text_lines, line):
    """The line where the function around `line` starts."""
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        if re.search(r"\bfn\s+[A-Za-z0-9_]+", text_lines[i]):
            return i
    return -1


def run_verus(path, timeout, extra=(), rlimit="60"):
    cmd = [VERUS, path, "--output-json", "--time", "--rlimit", rlimit, "--num-threads", "6", "--triggers-mode", "silent", *extra, "--", "--error-format=json"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], "timeout", cmd
    res = None
    try:
        i = p.stdout.index("{")
        res = json.loads(p.stdout[i:])
    except ValueError:
        pass
    diags = []
    for ln in p.stderr.split("\n"):
        if ln.startswith("{"):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    return res, diags, p.stderr, cmd


VERIF_FAIL = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion not|"
    r"possible arithmetic|possible bit shift|possible division|decreases not satisfied|decreases must|loop must have|"
    r"recommendation not met|unreachable|index out of bounds|constructed value may fail|could not prove|"
    r"cannot show|expect.*precondition|possible")


def owner(text_lines, line):
    """(source marker, enclosing fn) for a generated line."""
    src = None
    fn = None
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        s = text_lines[i]
        if fn is None:
            m = re.search(r"\bfn\s+([A-Za-z0-9_]+)", s)
            if m:
                fn = m.group(1)
        if s.startswith("/*ENDSRC*/") and src is None and i != line - 1:
            src = ""
        if s.startswith("/*SRC ") and src is None:
            src = s[6:-2]
        if fn is not None and src is not None:
            break
    return src or "", fn or "?"


def probe_lines(plines, todo):
    """The unit with the probes of `todo` only; what has none of them is not verified again."""
    cur = [("" if "/*VPPROBE*/" in l and i + 1 not in todo else l) for i, l in enumerate(plines)]
    cur = [l if i and "via_fn" in plines[i - 1] else re.sub(r"^((?:pub )?(?:broadcast )?proof fn )", r"#[verifier::external_body] \1", l)
           for i, l in enumerate(cur)]
    i = 0
    while i < len(cur):
        if cur[i].startswith("/*SRC ") and "fn " in cur[i].split("@")[-1]:
            j = i
            while j < len(cur) and not cur[j].startswith("/*ENDSRC*/"):
                j += 1
            if any(k + 1 in todo for k in range(i, j)):
                cur[i] += " #[verifier::spinoff_prover]"
            elif any("/*VPPROBE*/" in l for l in plines[i:j]):
                cur[i:j] = [l.replace("assert(false)", "assume(false)") if "/*VPPROBE*/" in l else c for l, c in zip(plines[i:j], cur[i:j])]
            i = j
        i += 1
    return cur


# how long the solver may look for a proof of false: a contradiction among the hypotheses is found early or not at all
PROBE_RLIMIT = "4"


def verify_unit(name, work, tier):
    r = UnitResult(name)
    t0 = time.time()
    try:
        text, fns = U.instantiate(name)
        r.fns = fns
    except LostAnchor as e:
        r.status, r.reason = "lost", str(e)
        r.wall = time.time() - t0
        return r
    path = os.path.join(work, name + ".rs")
    open(path, "w").write(text)
    r.assumptions = scan_assumptions(text)
    r.rewrites = sorted({f"{f.name}: {d}" for f in fns for d in f.dropped})
    # The solver's search depends on the names in its input: what it does not prove under one crate name is tried under
    # two others. Any accepted run is a proof; when none is, the first run's failures are reported.
    first = None
    for crate in (name, "r_" + name, "k" + name[::-1]):
        cur = run_verus(path, 400, ("--crate-name", crate))
        first = first or cur
        if ((cur[0] or {}).get("verification-results") or {}).get("success"):
            first = cur
            break
        if time.time() - t0 > 150 or not ((cur[0] or {}).get("verification-results") or {}).get("errors"):
            break
    res, diags, raw, cmd = first
    r.cmd = " ".join(cmd)
    vr = (res or {}).get("verification-results", {})
    r.log = "".join(d.get("rendered") or d.get("message", "") for d in diags if d.get("level") == "error")
    if res is None or not vr or vr.get("encountered-vir-error") or "verified" not in vr or vr.get("encountered-error") and not vr.get("errors"):
        r.status = "lost"
        r.reason = "verifier does not accept the extracted text: " + (r.log or raw)[:600]
        r.wall = time.time() - t0
        return r
    r.verified = vr.get("verified", 0)
    r.smt_ms = (res.get("times-ms", {}).get("smt", {}) or {}).get("smt-run", 0)
    lines = text.split("\n")
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        sp = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        ln = sp[0]["line_start"] if sp else 0
        # the body location is the most informative for the owner
        locs = [s["line_start"] for s in d.get("spans", [])]
        src, fn = owner(lines, max(locs) if locs else ln)
        r.errors.append(dict(message=d["message"], fn=fn, source=src, text=lines[ln - 1].strip() if 0 < ln <= len(lines) else "",
                             rendered=d.get("rendered", "")))
    if vr.get("errors", 0) == 0 and not r.errors and vr.get("success"):
        r.status = "ok"
    else:
        und = [e for e in r.errors if "rlimit" in e["message"].lower() or "resource limit" in e["message"].lower() or "timeout" in e["message"].lower()]
        if r.errors and len(und) == len(r.errors):
            r.status, r.reason = "undecided", "solver resource limit"
        else:
            r.status = "failed"
    if r.status == "ok":
        # vacuity guard: with assert(false) at every function entry and loop head, each must fail.
        # A probe whose failure hides a later one (a loop checked with its function) is repeated without it.
        ptext, _ = U.instantiate(name, probes=True)
        plines = ptext.split("\n")
        todo = {i + 1 for i, l in enumerate(plines) if "/*VPPROBE*/" in l}
        n = len(todo)
        for rnd in range(4):
            cur = probe_lines(plines, todo)
            ppath = os.path.join(work, name + "_probe.rs")
            open(ppath, "w").write("\n".join(cur))
            pres, pdiags, _, _ = run_verus(ppath, 400, ("--multiple-errors", "20", "--no-auto-recommends-check"), PROBE_RLIMIT)
            hit = set()
            for d in pdiags:
                if d.get("level") == "error" and "rlimit" in d["message"].lower():
                    # the solver gave up looking for a proof of false: it has none within this limit either
                    at = {fn_line(cur, sp["line_start"]) for sp in d.get("spans", [])}
                    hit |= {n for n in todo if fn_line(cur, n) in at}
                if d.get("level") == "error" and d["message"] == "assertion failed":
                    for sp in d.get("spans", []):
                        if sp.get("is_primary") and "/*VPPROBE*/" in cur[sp["line_start"] - 1]:
                            hit.add(sp["line_start"])
            todo -= hit
            if not todo or not hit:
                break
        r.probes = n - len(todo)
        if todo:
            r.status = "vacuous"
            r.reason = f"{len(todo)} of {n} reachability probes were not refuted: " + "; ".join(str(owner(plines, m)) for m in sorted(todo)[:5])
    r.wall = time.time() - t0
    return r


# ----------------------------------------------------------------- driver on the real code
def build_driver(features, log):
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(VERIF, ".build", "driver")
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=tgt, CARGO_TERM_COLOR="never",
               RUSTFLAGS="", CARGO_INCREMENTAL="0")
    env.pop("RUSTC_WRAPPER", None)
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    log.append(p.stdout[-6000:])
    if p.returncode != 0:
        return None
    return os.path.join(tgt, "debug", "hvd")


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20)) if False else None


def run_driver(exe, suite, seed, secs, work, extra=()):
    """Returns dict(cases, distinct, fails[], samples, exhaustive, dims, crash)."""
    trace = os.path.join(work, "trace.txt")
    out = dict(cases=0, distinct=0, fails=[], samples=[], suites=[], crash=None)
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)

    def go(args, to):
        env = dict(os.environ, HVD_SCRATCH=scratch, RUST_BACKTRACE="0")
        try:
            p = subprocess.run([exe, suite, "--seed", str(seed), "--secs", str(secs), *args, *extra], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=to, preexec_fn=limit, cwd=scratch, env=env, errors="replace")
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b""
            return "timeout", so.decode("utf8", "replace") if isinstance(so, bytes) else so, ""

    rc, so, se = go([], secs * 3 + 150)
    done = False
    for ln in so.split("\n"):
        if ln.startswith("FAIL "):
            out["fails"].append(json.loads(ln[5:]))
        elif ln.startswith("STAT "):
            s = json.loads(ln[5:])
            out["cases"] += s["cases"]
            out["distinct"] += s.get("distinct", s["cases"])
            out["samples"] += s.get("samples", [])[:3]
            out["suites"].append({k: s[k] for k in s if k != "samples"})
        elif ln.startswith("DONE"):
            done = True
    if not done:
        # crashed or hung: run again, recording each case before it starts, to name the input
        rc2, so2, se2 = go(["--trace", trace], secs * 6 + 200)
        last = None
        if os.path.exists(trace):
            last = open(trace, errors="replace").read()
        if "DONE" in so2:
            # not reproducible: not reported as a violation of the code
            out["crash"] = f"driver ended with {rc} once, not reproduced"
            for ln in so2.split("\n"):
                if ln.startswith("FAIL "):
                    out["fails"].append(json.loads(ln[5:]))
        else:
            out["fails"].append(dict(key="crash:" + (last or "?").split("\n")[0][:80], case=(last or "?")[:4000],
                                     detail=f"the process ended with {rc2} (signal, abort, memory or time limit) while running this case; stderr: {se2[-500:]}"))
    shutil.rmtree(scratch, ignore_errors=True)
    return out


# ----------------------------------------------------------------- main
def known_findings():
    f = os.path.join(VERIF, "known_findings.txt")
    known = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                known.append(m.groups())
    return known


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"w_{pid}_", dir=os.path.join(VERIF, ".build"))
    try:
        return decide(pid, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, cfg, work, t0):
    import concurrent.futures as cf
    logs = []
    with cf.ThreadPoolExecutor(8) as ex:
        fdrv = ex.submit(build_driver, cfg["features"], logs) if cfg.get("suite") else None
        fus = [ex.submit(verify_unit, u, work, tier) for u in cfg.get("units", [])]
        fks = []
        if cfg.get("kani"):
            import kani
            fks = [ex.submit(kani.run, k, work, tier) for k in cfg["kani"]]
        units = [f.result() for f in fus]
        kanis = [f.result() for f in fks]
        exe = fdrv.result() if fdrv else None
    failed = [u for u in units if u.status == "failed"]
    notok = [u for u in units if u.status not in ("ok", "failed")]
    kfailed = [k for k in kanis if k["status"] == "failed"]
    knotok = [k for k in kanis if k["status"] not in ("ok", "failed")]
    secs = cfg.get("secs", 20) if tier == "quick" else cfg.get("tsecs", 240)
    if failed or kfailed or notok or knotok:
        secs = max(secs, min(2 * secs, 90))
    drv = None
    if exe:
        drv = run_driver(exe, cfg["suite"], seed, secs, work)
        if tier == "thorough" and not drv["fails"]:
            for s in range(1, 4):
                d2 = run_driver(exe, cfg["suite"], seed + 1000 * s, secs, work)
                drv["cases"] += d2["cases"]
                drv["distinct"] += d2["distinct"]
                drv["fails"] += d2["fails"]
                drv["suites"] += d2["suites"]
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    fails = []
    hitk = set()
    for f in (drv["fails"] if drv else []):
        for k, d in known:
            if f["key"] == k:
                hitk.add((k, d))
                break
        else:
            fails.append(f)
    for k, d in known:
        print(f"KNOWN-FINDING: property={pid} {d}")
    # ---------------- verdict
    violation = None
    replay = None
    rdir = os.path.join(VERIF, "replays")
    if fails or failed or kfailed:
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join("replays", f"{pid}.json")
        kcex = [k for k in kfailed if k.get("replayed")]
        body = dict(property=pid, tier=tier, seed=seed,
                    failed_obligations=[dict(unit=u.name, **e) for u in failed for e in u.errors] + [dict(unit=k["name"], message=m) for k in kfailed for m in k["failed"]],
                    failing_inputs=fails[:20],
                    rerun=f"VERIF_SEED={seed} ./check {pid} {tier}",
                    verifier_output={u.name: u.log[:20000] for u in failed} | {k["name"]: k["log"][-20000:] for k in kfailed})
        json.dump(body, open(os.path.join(VERIF, replay), "w"), indent=1, ensure_ascii=False)
        for u in failed:
            for e in u.errors[:6]:
                print(f"failed obligation: {u.name}: {e['message']} in {e['fn']} [{e['source']}]: {e['text'][:160]}")
        for k in kfailed:
            for m in k["failed"][:6]:
                print(f"failed obligation: {k['name']}: {m}")
        for f in fails[:6]:
            print(f"failing input: {json.dumps(f, ensure_ascii=False)[:700]}")
        violation = f"VIOLATION property={pid} replay={replay}"
        if not fails and not kcex:
            violation += " no-failing-input-found"
    for u in notok:
        print(f"not decided by the verifier: {u.name}: {u.status}: {u.reason[:400]}")
    for k in knotok:
        print(f"not decided by the verifier: {k['name']}: {k['status']}: {k.get('reason','')[:400]}")
    noanswer = False
    if not violation:
        if cfg.get("suite") and exe is None:
            print("the driver does not build against the current tree:")
            print(logs[-1][-1500:] if logs else "")
            if notok or knotok or not (units or kanis):
                noanswer = True
        if (notok or knotok) and not cfg.get("suite"):
            noanswer = True
        if any(u.status == "vacuous" for u in units) and not cfg.get("suite"):
            noanswer = True
    # ---------------- evidence
    ob = sum(u.verified + len(u.errors) for u in units) + sum(k["checks"] for k in kanis)
    di = sum(u.verified for u in units if u.status == "ok") + sum(k["checks"] for k in kanis if k["status"] == "ok")
    lost_obl = sum(1 for u in notok) + sum(1 for k in knotok)
    allassume = sorted({a for u in units for a in u.assumptions})
    cov = dict(
        obligations=ob + lost_obl,
        discharged=di,
        checker_cmd="; ".join([u.cmd for u in units] + [k["cmd"] for k in kanis]) or "none",
        trusted_base=cfg.get("trusted", []) + ["Verus 0.2026.09.13 (rust_verify, vstd, Z3)", "the extractor lib/rustx.py, lib/unit.py and the rewrites listed under rewrites"] + ["assumed contract: " + a for a in allassume],
        functions_under_contract=sorted({f"{f.src_file}: {' '.join(f.path)}" for u in units for f in u.fns}) + sorted({x for k in kanis for x in k.get("functions", [])}),
        rewrites=sorted({x for u in units for x in u.rewrites}),
        units=[dict(unit=u.name, status=u.status, verified=u.verified, reachability_probes_refuted=u.probes, wall_s=round(u.wall, 2), smt_ms=u.smt_ms, backend="Verus/Z3", reason=u.reason[:300]) for u in units]
        + [dict(unit=k["name"], status=k["status"], checks=k["checks"], wall_s=round(k["wall"], 2), backend="Kani/CBMC", reason=k.get("reason", "")[:300], bound=k.get("bound", "")) for k in kanis],
        bounded_standin=dict(
            note="executions of the real code against the executable form of the contracts; bounded, not counted as proved",
            evaluations=drv["cases"] if drv else 0, distinct=drv["distinct"] if drv else 0,
            suites=drv["suites"] if drv else [], samples=(drv["samples"] if drv else [])[:6]),
    )
    level = cfg.get("level", "proof")
    if level != "proof":
        cov.update(evaluations=drv["cases"] if drv else 0, distinct_nontrivial=drv["distinct"] if drv else 0,
                   rule=cfg.get("rule", "generated cases; distinct by input"), samples=(drv["samples"] if drv else [])[:6])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cfg.get("assumptions", []) + [f"undecided this run: {u.name}: {u.reason[:200]}" for u in notok] + allassume,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, ensure_ascii=False)
    print(f"{pid} {tier}: obligations {cov['obligations']} discharged {di}; bounded stand-in {cov['bounded_standin']['evaluations']} cases; {ev['wall_s']} s")
    if violation:
        print(violation)
        return 1
    if noanswer:
        print("no answer")
        return 2
    return 0
