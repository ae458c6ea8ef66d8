#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ from plants/<id>.py and confirms each in a scratch copy mounted over /repo.
usage: plant.py [id...]   (no argument: every plant without a 'confirmed' stamp)"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "selftest"))
import re
def replace(s, old, new, i=0):
    ms = list(re.finditer(r'(?:\s|//[^\n]*)+'.join(re.escape(w) for w in old.split()), s))
    return s[:ms[i].start()] + new.strip() + s[ms[i].end():]
DEMO = '''#!/bin/bash
# Compiles the program beside this script against the sources in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++1y -w -g %s -I. "$d/demo.cc" -o "$t/demo" || exit 3
cd "$t" && ulimit -c 0 && %stimeout 120 ./demo
'''
def load(p):
    g = {}
    exec(p.read_text(), g)
    return g
def make(pid, g, work):
    d = V / "seeded" / pid; d.mkdir(parents=True, exist_ok=True)
    for f, old, new in g["edits"]:
        p = work / "sdd" / f
        p.write_text(replace(p.read_text(), old, new, g.get("occ", 0)))
    diff = subprocess.run(["git", "-C", str(work), "diff"], capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.cc").write_text(g["demo"].lstrip("\n"))
    (d / "demo.sh").write_text(DEMO % (g.get("flags", ""), g.get("env", "")))
    (d / "meta.json").write_text(json.dumps({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, indent=1) + "\n")
    return d
def ns(work, cmd):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {work} /repo && cd /repo && {cmd}"], capture_output=True, text=True)
def confirm(pid):
    g = load(V / "selftest/plants" / f"{pid}.py")
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        shutil.rmtree(work); subprocess.run(["cp", "-a", "/repo", str(work)], check=True)
        d = make(pid, g, work)
        base = subprocess.run(["bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
        if base.returncode: return f"{pid}: demo fails on the clean tree ({base.returncode}) {base.stdout[-300:]} {base.stderr[-600:]}"
        r = ns(work, "bash /opt/vp/build.sh")
        if r.returncode: return f"{pid}: does not build\n{(r.stdout+r.stderr)[-800:]}"
        r = ns(work, f"bash /opt/vp/test.sh {work}/OUT.json")
        out = json.loads((work / "OUT.json").read_text())
        bl = json.load(open("/opt/vp/BASELINE.json"))
        def names(o, k): return set(o.get(k, []))
        stable = set(bl.get("stable", bl.get("passed", bl.get("tests", []))))
        lost = stable - set(out.get("passed", []))
        if lost: return f"{pid}: {len(lost)} tests fail: {sorted(lost)[:4]}"
        r = ns(work, f"bash {d}/demo.sh")
        if r.returncode == 0: return f"{pid}: demo passes with the patch"
        if r.returncode == 3: return f"{pid}: demo does not compile with the patch {r.stderr[-500:]}"
        return f"{pid}: OK (demo exit {r.returncode}) {r.stdout.strip()[-120:]!r}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(p.stem for p in (V / "selftest/plants").glob("[a-z]*.py"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(confirm, ids): print(r, flush=True)
