#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

1. extracts the functions under contract from /repo/src (vx) and runs Verus on
   every unit of the property (the deciding step);
2. runs the vacuity probes of every unit (quick tier: unless they ran on the
   identical text before, units/vacuity.json);
3. runs the executable contracts (bounded) of the property on the real crate.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/src"
ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "RUSTFLAGS": "",
})
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTUP_TOOLCHAIN", None)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CONF = json.load(open(f"{V}/checks.json"))


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o, e


def locked(name):
    os.makedirs(f"{V}/build", exist_ok=True)
    f = open(f"{V}/build/{name}.lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_vx():
    with locked("vx"):
        env = dict(ENV, CARGO_TARGET_DIR=f"{V}/target/vx", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--locked"], 600, env, f"{V}/vx")
        if rc != 0:
            raise SystemExit(f"cannot build vx: {e[-2000:]}")
    return f"{V}/target/vx/release/vx"


def build_vh(sha1):
    name = "vh1" if sha1 else "vh"
    with locked(name):
        td = f"{V}/target/{name}"
        env = dict(ENV, CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        # a source file put back with an old mtime would go unseen
        fp = f"{td}/release/.fingerprint"
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("viadkim-"):
                    shutil.rmtree(f"{fp}/{d}", ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--release", "--locked"] + (["--features", "sha1"] if sha1 else [])
        rc, o, e = sh(cmd, 800, env, f"{V}/harness")
        if rc != 0:
            return None, "\n".join(l for l in e.splitlines() if l.startswith("error"))[:3000] or e[-2000:]
    # run a private copy: another check may rebuild it
    return f"{td}/release/vh", None


def directives(f, kw):
    """Files named by `kw` in a unit file, through plain includes."""
    out = set()
    for l in open(f"{V}/units/{f}"):
        if l.startswith(kw + " "):
            out.add(l.split()[1])
        if l.startswith("@@include ") or l.startswith("@@use "):
            if kw == "@@use" or l.startswith("@@include "):
                out |= directives(l.split()[1], kw)
    return out


def used_files(units):
    r = set()
    for u in units:
        for f in directives(f"{u}.vrs", "@@use"):
            r |= {f} | directives(f, "@@include")
    return r


def included_files(units):
    r = set()
    for u in units:
        r |= directives(f"{u}.vrs", "@@include")
    return r


# ----------------------------------------------------------------- verus ----
def run_unit(vx, unit, wd, rlimit=None):
    r = {"unit": unit, "status": "undecided", "reason": "", "functions": [], "failed": [], "smt_ms": 0,
         "verified": 0, "errors": 0, "assertion_points": 0, "rewrites": {}, "assumptions": []}
    gen, meta = f"{wd}/{unit}.rs", f"{wd}/{unit}.json"
    rc, o, e = sh([vx, SRC, f"{V}/units/{unit}.vrs", gen, meta], 120)
    if rc != 0:
        r["reason"] = (o + e).strip()[:600] or f"vx exit {rc}"
        return r
    m = json.load(open(meta))
    text = open(gen).read()
    r["assumptions"] = scan_assumptions(text)
    r["used"] = m["used"]
    fns = [i for i in m["items"] if i["kind"] == "fn"]
    r["functions"] = [f"{f['file']}::{f['path']}" for f in fns if f["has_spec"]]
    r["items"] = m["items"]
    for i in m["items"]:
        if i["rewrites"]:
            r["rewrites"][f"{i['file']}::{i['path']}"] = i["rewrites"]
    ld = f"{wd}/{unit}.log"
    shutil.rmtree(ld, ignore_errors=True)
    cmd = ["verus", gen, "--output-json", "--time-expanded", "--log", "air-final", "--log-dir", ld,
           "--num-threads", "4", "--multiple-errors", "3"]
    feats = CONF.get("unit_flags", {}).get(unit, [])
    cmd += feats
    rl = rlimit or CONF.get("rlimit", {}).get(unit)
    if rl:
        cmd += ["--rlimit", str(rl)]
    rc, o, e = sh(cmd, 700, cwd=wd)
    r["cmd"] = " ".join(cmd[1:2] + cmd[2:]).replace(wd + "/", "")
    try:
        d = json.loads(o)
    except ValueError:
        r["reason"] = "verifier gave no result (unsupported construct or compile error): " + first_error(e)
        r["raw"] = e[-6000:]
        return r
    vr = d.get("verification-results", {})
    if vr.get("encountered-vir-error") or "verified" not in vr:
        r["reason"] = "unsupported by the verifier: " + first_error(e)
        r["raw"] = e[-6000:]
        return r
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    for mt in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        r["smt_ms"] += mt.get("time-micros", 0) / 1000.0
    for root, _, fs in os.walk(ld):
        for f in fs:
            with open(f"{root}/{f}", errors="replace") as fh:
                t = fh.read()
            i = t.find("(check-valid")
            r["assertion_points"] += len(re.findall(r'^\s*\("(?!recommendation)[^"]', t[i:], re.M)) if i >= 0 else 0
    shutil.rmtree(ld, ignore_errors=True)
    if r["errors"] == 0 and rc == 0:
        r["status"] = "proved" if r["verified"] > 0 else "undecided"
        return r
    # classify
    blocks = error_blocks(e)
    hard, soft = [], []
    glines = text.split("\n")
    for b in blocks:
        if b["kind"] is None:
            continue
        fn = next((f for f in fns if f["gen_first"] <= b["line"] <= f["gen_last"]), None)
        if fn is None and b["secondary"]:
            fn = next((f for f in fns if any(f["gen_first"] <= l <= f["gen_last"] for l in b["secondary"])), None)
        where = f"{fn['file']}::{fn['path']}" if fn else enclosing_fn(glines, b["line"])
        item = {"obligation": b["msg"], "where": where, "source_line": (fn or {}).get("line"),
                "text": glines[b["line"] - 1].strip()[:300] if 0 < b["line"] <= len(glines) else "",
                "extracted": fn is not None, "path": (fn or {}).get("path"), "file": (fn or {}).get("file"),
                "output": b["raw"][:2500]}
        (soft if b["kind"] == "rlimit" else hard).append(item)
    if not hard and not soft and r["errors"]:
        r["reason"] = "verifier error without a classified obligation: " + first_error(e)
        r["raw"] = e[-6000:]
        return r
    if not hard:
        if rlimit is None:
            return run_unit(vx, unit, wd, rlimit=80)
        r["reason"] = "resource limit: " + ", ".join(s["where"] for s in soft)
        r["failed"] = []
        return r
    r["status"] = "failed"
    r["failed"] = hard
    r["soft"] = soft
    return r


KINDS = [
    (r"postcondition not satisfied", "post"), (r"precondition not satisfied", "pre"),
    (r"precondition .* not satisfied", "pre"),
    (r"assertion failed", "assert"), (r"invariant not satisfied", "inv"),
    (r"loop invariant not satisfied", "inv"), (r"loop ensures not satisfied", "inv"),
    (r"possible arithmetic (under|over)flow", "overflow"), (r"possible division by zero", "overflow"),
    (r"decreases not satisfied", "term"), (r"could not prove termination", "term"),
    (r"recommendation not met", None), (r"bitvector assertion", "assert"),
    (r"Resource limit \(rlimit\) exceeded", "rlimit"), (r"unable to prove", "assert"),
    (r"call to .* might", "pre"), (r"possible .*overflow", "overflow"), (r"not satisfied", "post"),
    (r"index.*bounds", "pre"),
]


def error_blocks(e):
    out = []
    cur = None
    for l in e.splitlines():
        m = re.match(r"^(error|warning|note)(\[[A-Z0-9]+\])?: (.*)$", l)
        if m:
            cur = None
            if m.group(1) == "error" and not m.group(3).startswith("aborting"):
                kind = next((k for p, k in KINDS if re.search(p, m.group(3))), None)
                cur = {"msg": m.group(3), "kind": kind, "line": 0, "secondary": [], "raw": l + "\n"}
                out.append(cur)
            continue
        if cur is not None:
            cur["raw"] += l + "\n"
            m = re.match(r"^\s*--> .*?:(\d+):\d+", l)
            if m and not cur["line"]:
                cur["line"] = int(m.group(1))
            m = re.match(r"^\s*::: .*?:(\d+):\d+", l)
            if m:
                cur["secondary"].append(int(m.group(1)))
            m = re.match(r"^(\d+)\s*[|/]", l.strip())
            if m:
                cur["secondary"].append(int(m.group(1)))
    return out


def enclosing_fn(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return f"(contract layer) {m.group(1)}"
    return "(contract layer)"


def first_error(e):
    for l in e.splitlines():
        if l.startswith("error"):
            i = e.index(l)
            return e[i:i + 500].replace("\n", " | ")
    return e[-300:].replace("\n", " | ")


def scan_assumptions(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "// proved elsewhere" in s:
            continue
        if "external_body" in s:
            nxt = next((x.strip() for x in lines[i + 1:i + 6] if " fn " in f" {x}" or "struct " in x), "")
            out.append("trusted body: " + nxt[:160])
        elif "assume_specification" in s:
            out.append("assumed std contract: " + s[:200])
        elif re.search(r"\bassume\s*\(", s) or re.search(r"\badmit\s*\(", s):
            out.append("assume: " + s[:160])
        elif re.search(r"\baxiom fn\b|uninterp spec fn", s):
            out.append("uninterpreted/axiom: " + s[:160])
        elif "external_type_specification" in s or "external_trait_specification" in s:
            out.append("external type: " + " ".join(x.strip() for x in lines[i:i + 2])[:160])
    return out


def vacuity(vx, unit, wd, recorded=None):
    """Every function body and loop body gets an assertion of an unconstrained predicate that must fail."""
    gen, meta = f"{wd}/{unit}_vac.rs", f"{wd}/{unit}_vac.json"
    rc, o, e = sh([vx, SRC, f"{V}/units/{unit}.vrs", gen, meta, "--vacuity"], 120)
    if rc != 0:
        return {"unit": unit, "probes": 0, "reached": 0, "unreached": ["?"]}
    text = open(gen).read()
    text = text.replace("} // verus!", "pub uninterp spec fn v_probed(n: int) -> bool;\n} // verus!")
    # a probe that must fail needs no deep search: one that hits the limit is
    # reported as not decided
    text = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", text)
    # a failed probe is assumed from there on: each needs a number of its own
    ids = iter(range(10 ** 6))
    text = re.sub(r"assert\(v_probed\(-?\d+\)\)", lambda m: f"assert(v_probed({next(ids)}))", text)
    open(gen, "w").write(text)
    text = text.split("\n")
    probe_lines = [i + 1 for i, l in enumerate(text) if re.fullmatch(r"proof \{ assert\(v_probed\(-?\d+\)\); \}", l.strip())]
    cmd = ["verus", gen, "--num-threads", "4", "--multiple-errors", "60", "--no-auto-recommends-check", "--rlimit", "10"] + CONF.get("unit_flags", {}).get(unit, [])
    # the probes test the contracts, not the code's correctness: for a text that
    # has been probed before, the quick tier gives the recorded outcome
    key = hashlib.sha256("\n".join(text + cmd[2:]).encode()).hexdigest()
    old = recorded.get(unit) if recorded and TIER == "quick" else None
    if old and old.get("sha256") == key:
        return dict(old, recorded="outcome of an earlier run on the identical text")
    rc, o, e = sh(cmd, 400, cwd=wd)
    hit = set()
    soft = {enclosing_fn(text, b["line"]) for b in error_blocks(e) if b["kind"] == "rlimit"}
    for b in error_blocks(e):
        if b["line"] in probe_lines:
            hit.add(b["line"])
    un = [l for l in probe_lines if l not in hit]
    allowed = set(CONF.get("vacuous_ok", {}).get(unit, []))
    names = [enclosing_fn(text, l) for l in un]
    return {"unit": unit, "sha256": key, "probes": len(probe_lines), "reached": len(hit),
            "unreached": [n for n in names if n not in allowed and n not in soft] if rc != -9 else [],
            "not_decided": sorted(soft) + (["time limit"] if rc == -9 else [])}


# --------------------------------------------------------------- harness ----
def run_harness(exe, prop, secs, shards, wd, seed, tag=""):
    procs = []
    for i in range(shards):
        out = f"{wd}/h{tag}{i}.json"
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, prop, "--seed", str(seed), "--tier", TIER, "--secs", str(secs),
               "--shard", str(i), "--shards", str(shards), "--out", out]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                            env=ENV, start_new_session=True)))
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "failures": [], "samples": [], "per_contract": {},
           "exhaustive": set(), "rule": "", "errors": []}
    for out, p in procs:
        try:
            o, _ = p.communicate(timeout=secs + 150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            tot["errors"].append("executable contracts ran out of time")
            continue
        if p.returncode == 4:
            h = [l for l in o.splitlines() if l.startswith("HANG")]
            tot["failures"].append({"case": 0, "contract": "termination", "key": "hang",
                                    "input": h[0] if h else "?", "detail": "no result within 60 s"})
            continue
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            tot["errors"].append(f"executable contracts ended with {p.returncode}")
            if p.returncode in (-6, -11):
                tot["failures"].append({"case": 0, "contract": "no abort", "key": "abort",
                                        "input": "(process ended by a signal)", "detail": f"signal {-p.returncode}"})
            continue
        tot["evaluations"] += d["evaluations"]
        tot["distinct_nontrivial"] += d["distinct_nontrivial"]
        tot["failures"] += d["failures"]
        if len(tot["samples"]) < 12:
            tot["samples"] += [s for s in d["samples"] if len(s["input"]) < 1500][:6]
        tot["exhaustive"] |= set(d["exhaustive"])
        for k, v in d["per_contract"].items():
            tot["per_contract"][k] = tot["per_contract"].get(k, 0) + v
        tot["rule"] = d["rule"]
    tot["exhaustive"] = sorted(tot["exhaustive"])
    return tot


def structure_changed(fail, items, base):
    """Has the shape of the function (loops, callees) changed since its contract
    was written?  Then a failed proof only says that the proof needs redoing."""
    if not fail["extracted"]:
        return None
    it = next((i for i in items if i["kind"] == "fn" and i["path"] == fail["path"] and i["file"] == fail["file"]), None)
    b = base.get(f"{fail['file']}::{fail['path']}")
    if not it or not b:
        return "no recorded shape"
    if it["loops"] != b["loops"]:
        return f"{b['loops']} loops became {it['loops']}"
    new = [c for c in it["calls"] if c not in b["calls"]]
    if new:
        return "calls not under contract: " + ", ".join(new[:5])
    return None


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        build_vx()
        for s in (False, True):
            exe, err = build_vh(s)
            log("harness", "with" if s else "without", "pre-rfc8301:", exe or err)
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == "vacuity":
        return record_vacuity()
    if len(sys.argv) > 1 and sys.argv[1] == "baseline":
        return baseline()
    prop = sys.argv[1]
    t0 = time.time()
    conf = CONF["properties"][prop]
    wd = f"{V}/build/{prop}"
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    known = [k for k in json.load(open(f"{V}/known-findings.json"))["findings"] if k["property"] == prop]
    base = json.load(open(f"{V}/units/baseline.json"))
    vx = build_vx()

    # harness builds run beside the proofs
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(8)
    variants = [False] + ([True] if conf.get("sha1") else [])
    hb = {v: pool.submit(build_vh, v) for v in variants}
    uncovered = used_files(conf["units"]) - included_files(conf["units"])
    if uncovered:
        raise SystemExit(f"{prop}: no unit of this check verifies {sorted(uncovered)}")
    recorded = json.load(open(f"{V}/units/vacuity.json"))

    def both(u):
        r = run_unit(vx, u, wd)
        return r, vacuity(vx, u, wd, recorded) if r["status"] == "proved" else None

    # the longest first
    slow = ["format", "sign", "produced", "vtask", "canon_header", "verifier", "query", "hash", "names", "qp"]
    ur = {u: pool.submit(both, u) for u in sorted(conf["units"], key=lambda u: slow.index(u) if u in slow else 99)}
    done = [ur[u].result() for u in conf["units"]]
    units = [r for r, _ in done]
    vac = [v for _, v in done if v]
    secs = conf.get("secs", 25) if TIER == "quick" else conf.get("secs_thorough", 420)
    hres, herr = [], []
    proof_failed = any(u["status"] == "failed" for u in units)
    undecided = [u for u in units if u["status"] == "undecided"]
    for v in variants:
        exe, err = hb[v].result()
        if exe is None:
            herr.append(f"executable contracts do not build{' (pre-rfc8301)' if v else ''}: {err}")
            continue
        s = secs
        if (proof_failed or undecided) and TIER == "quick":
            s = max(secs * 2, 90)
        if v:
            s = max(8, s // 3)
        hres.append((v, exe, run_harness(exe, prop, s, 8, wd, SEED, "s" if v else "")))

    violations, knowns = [], {}
    for v, exe, h in hres:
        for f in h["failures"]:
            k = next((k for k in known if k["key"] == f["key"] and re.search(k.get("input_re", ""), f["input"])), None)
            if k:
                knowns[k["id"]] = k
                continue
            violations.append({"by": "executable contract replayed on the real code", "contract": f["contract"],
                               "input": f["input"], "detail": f["detail"], "case": f["case"],
                               "replay_cmd": f"{exe} {prop} --seed {SEED} --tier {TIER} --only {f['case']}",
                               "pre_rfc8301": v})
    pv, pu = [], []
    for u in units:
        for f in u["failed"]:
            why = structure_changed(f, u.get("items", []), base)
            (pu if why else pv).append(dict(f, unit=u["unit"], structure=why))
    # a change of shape anywhere in the unit also makes a failed lemma undecided
    evidence(prop, conf, units, vac, hres, herr, violations, pv, pu, knowns, t0)
    for k in knowns.values():
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in units:
        log(f"unit {u['unit']}: {u['status']} ({u['verified']} verified, {u['errors']} errors) {u['reason'][:300]}")
    for v in vac:
        log(f"vacuity {v['unit']}: {v['reached']}/{v['probes']} probes fail as they must {v['unreached'] or ''}")
    for v, _, h in hres:
        log(f"executable contracts{' (pre-rfc8301)' if v else ''}: {h['evaluations']} evaluations, {len(h['failures'])} failures {h['errors'] or ''}")
    for e in herr:
        log(e)
    if violations or pv:
        os.makedirs(f"{V}/replay", exist_ok=True)
        path = f"{V}/replay/{prop}.json"
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "failing_inputs": violations,
                       "failed_obligations": pv + pu}, fh, indent=1)
        for f in pv[:6]:
            log(f"failed obligation [{f['unit']}] {f['where']}: {f['obligation']}: {f['text']}")
        for f in violations[:3]:
            log(f"failing input [{f['contract']}]: {f['input'][:600]} => {f['detail'][:600]}")
        tail = "" if violations else " no-failing-input-found"
        log(f"VIOLATION property={prop} replay={path}{tail}")
        return 1
    for f in pu:
        log(f"undecided obligation [{f['unit']}] {f['where']}: {f['obligation']} ({f['structure']})")
    return 0


def evidence(prop, conf, units, vac, hres, herr, violations, pv, pu, knowns, t0):
    obl = sum(u["verified"] + u["errors"] for u in units)
    dis = sum(u["verified"] for u in units)
    trusted = sorted({a for u in units for a in u["assumptions"]})
    cov = {
        "obligations": obl,
        "discharged": dis,
        "assertion_points": sum(u["assertion_points"] for u in units),
        "obligation_unit": "one verification query per function, lemma, loop or const body, as counted by Verus; assertion_points counts the labelled assertions inside them",
        "checker_cmd": "; ".join(f"verus {u.get('cmd', '')}" for u in units),
        "back_end": "Verus 0.2026.09.13 with its bundled Z3",
        "solver_ms": round(sum(u["smt_ms"] for u in units), 1),
        "functions_under_contract": sorted({f for u in units for f in u["functions"]}),
        "units": [{k: u[k] for k in ("unit", "status", "reason", "verified", "errors", "smt_ms")} for u in units],
        "undischarged": [{k: f[k] for k in ("where", "obligation", "text")} for f in pv + pu],
        "extraction_rewrites": {k: v for u in units for k, v in u["rewrites"].items()},
        "vacuity": vac,
        "trusted_base": trusted + conf.get("trusted", []) + [
            "Verus, Z3, vstd and its specifications of core/alloc",
            "vx, the extractor (copies function bodies verbatim; every rewrite it made is listed in extraction_rewrites)",
        ],
        "bounded": [{
            "label": "bounded, not counted as proved",
            "build": "pre-rfc8301" if v else "default features",
            "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"],
            "per_contract": h["per_contract"], "exhaustive": h["exhaustive"], "rule": h["rule"],
            "samples": h["samples"][:10], "errors": h["errors"],
        } for v, _, h in hres],
        "harness_errors": herr,
        "evaluations": sum(h["evaluations"] for _, _, h in hres),
        "distinct_nontrivial": sum(h["distinct_nontrivial"] for _, _, h in hres),
        "rule": hres[0][2]["rule"] if hres else "",
        "samples": (hres[0][2]["samples"][:8] if hres else []),
    }
    if not cov["samples"]:
        cov["samples"] = ["none: the executable contracts did not run"]
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": conf["level"], "coverage": cov,
          "assumptions": conf.get("assumptions", []) + [f"known finding: {k['what']}" for k in knowns.values()],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations) + len(pv)}
    with open(f"{V}/evidence/{prop}.json", "w") as fh:
        json.dump(ev, fh, indent=1)


def baseline():
    """Records the shape of every function under contract (development only)."""
    vx = build_vx()
    wd = f"{V}/build/baseline"
    os.makedirs(wd, exist_ok=True)
    out = {}
    for f in sorted(os.listdir(f"{V}/units")):
        if not f.endswith(".vrs"):
            continue
        u = f[:-4]
        rc, o, e = sh([vx, SRC, f"{V}/units/{f}", f"{wd}/{u}.rs", f"{wd}/{u}.json"], 60)
        if rc:
            raise SystemExit(f"{u}: {o}{e}")
        for i in json.load(open(f"{wd}/{u}.json"))["items"]:
            if i["kind"] == "fn":
                out[f"{i['file']}::{i['path']}"] = {"loops": i["loops"], "calls": i["calls"]}
    with open(f"{V}/units/baseline.json", "w") as fh:
        json.dump(out, fh, indent=1, sort_keys=True)
        fh.write("\n")
    return 0


def record_vacuity():
    """Runs every unit's probes and records the outcomes (development only)."""
    import concurrent.futures as cf
    vx = build_vx()
    wd = f"{V}/build/vacuity"
    os.makedirs(wd, exist_ok=True)
    us = sorted(f[:-4] for f in os.listdir(f"{V}/units") if f.endswith(".vrs"))
    path = f"{V}/units/vacuity.json"
    old = json.load(open(path)) if os.path.exists(path) else {}
    with cf.ThreadPoolExecutor(8) as pool:
        out = dict(zip(us, pool.map(lambda u: vacuity(vx, u, wd, old), us)))
    for v in out.values():
        v.pop("recorded", None)
        if v["unreached"]:
            log(f"{v['unit']}: {v['unreached']}")
    with open(path, "w") as fh:
        json.dump(out, fh, indent=1, sort_keys=True)
        fh.write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
