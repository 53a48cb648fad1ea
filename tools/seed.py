#!/usr/bin/env python3
"""Development tool for planted bugs.

seed.py new SPEC.py        SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FEATURES
seed.py verify ID...       in a scratch copy: builds, tests pass, demo 0 without / nonzero with the patch
seed.py check ID... [PROP] applies to /repo, runs the check, undoes it
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
ENV = dict(os.environ, PATH=os.environ["PATH"] + ":/root/.cargo/bin", CARGO_NET_OFFLINE="true")
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout + p.stderr


def scratch():
    if not os.path.isdir(S):
        sh(f"cp -a /repo {S}")
    sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    scratch()
    for f, old, nw in g["EDITS"]:
        t = open(f"{S}/{f}").read()
        if t.count(old) != 1:
            print(f"{g['ID']}: {f}: {t.count(old)} matches of {old!r}")
            return False
        open(f"{S}/{f}", "w").write(t.replace(old, nw))
    rc, patch = sh("git diff", S)
    shutil.copytree(f"{V}/tools/demo", d)
    open(f"{d}/patch.diff", "w").write(patch)
    demo = g["DEMO"]
    open(f"{d}/demo.rs", "w").write(demo)
    if g.get("FEATURES"):
        t = open(f"{d}/demo.sh").read().replace("set -e\n", f'set -e\nDEMO_FEATURES="{g["FEATURES"]}"\n', 1)
        open(f"{d}/demo.sh", "w").write(t)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    return verify(g["ID"])


def tests(cwd):
    env = dict(ENV, CARGO_TARGET_DIR=f"{S}/target")
    ok = set()
    for feat, pre in (("", ""), ("--features pre-rfc8301", "pre-rfc8301/")):
        rc, o = sh(f"timeout 400 cargo test --workspace --no-fail-fast --offline {feat} -- --test-threads 8", cwd, 900, env)
        if "error: could not compile" in o or "error[" in o:
            return None, o[-1500:]
        failed = re.findall(r"^test (\S+).* \.\.\. FAILED", o, re.M)
        ok |= {pre + x for x in failed}
    return ok, ""


def verify(i):
    d = f"{V}/seeded/{i}"
    scratch()
    rc0, o0 = sh(f"bash {d}/demo.sh", S, 300)
    rc, o = sh(f"git apply {d}/patch.diff", S)
    if rc:
        print(i, "patch does not apply", o)
        return False
    failed, err = tests(S)
    rc1, o1 = sh(f"bash {d}/demo.sh", S, 300)
    scratch()
    good = rc0 == 0 and rc1 not in (0, 3) and failed == set()
    print(i, "OK" if good else "NOT OK", f"clean={rc0} patched={rc1} failed={failed if failed is None else sorted(failed)[:5]}",
          "" if good else (err or (o0[-800:] + o1[-800:])), flush=True)
    return good


def check(i, prop=None):
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    if sh("git -C /repo status --porcelain")[1].strip():
        raise SystemExit("repo dirty")
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    if rc:
        print(i, o)
        return
    try:
        rc, o = sh(f"python3 {V}/check.py {prop}", V, 1200)
    finally:
        sh("git -C /repo checkout -- .")
    lines = [l for l in o.splitlines() if re.match(r"VIOL|unit|failed|failing|undecided|exec|Trace|KNOWN", l)]
    print(f"== {i} {prop} rc={rc}")
    for l in lines:
        print("   ", l[:330])
    sys.stdout.flush()


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for s in sys.argv[2:]:
            new(s)
    elif sys.argv[1] == "verify":
        for s in sys.argv[2:]:
            verify(s)
    else:
        a = sys.argv[2:]
        prop = a.pop() if a and re.fullmatch(r"C\d\d", a[-1]) else None
        for s in a:
            check(s, prop)
