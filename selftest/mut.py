#!/usr/bin/env python3
"""mut.py [-c C19,C07] [-k name-substring] [-r]: applies each mutant of muts.py to a scratch copy of /repo/sdd and
reports which checks flag it. -r: only behaviour-preserving rewrites (no check may flag them)."""
import sys, os, subprocess, shutil, argparse, re
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import muts
ap = argparse.ArgumentParser(); ap.add_argument("-c"); ap.add_argument("-k"); ap.add_argument("-r", action="store_true"); ap.add_argument("-m", action="store_true"); ap.add_argument("-j", type=int, default=7); ap.add_argument("-v", action="store_true"); ap.add_argument("-n", type=int, default=0)
a = ap.parse_args()
allc = sorted(f[2:-3].upper() for f in os.listdir(V + "/checks") if re.match(r"p_c\d+\.py$", f))
want = a.c.split(",") if a.c else None
def go(m):
    d = "/tmp/mut.%d.%s" % (os.getpid(), re.sub(r"\W", "_", m["name"]))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/cache"); os.makedirs(d + "/ev")
    shutil.copytree("/repo/sdd", d + "/sdd")
    try:
        for f, old, new in m["edits"]:
            p = d + "/sdd/" + f; s = open(p).read()
            rx = r"(?:\s|//[^\n]*)+".join(re.escape(w) for w in old.split())
            ms = list(re.finditer(rx, s)); i = m.get("occ", 0)
            if len(ms) <= i: return m, {"?": "edit does not apply: " + f + ": " + old[:50]}
            s = s[:ms[i].start()] + new.strip() + s[ms[i].end():]
            open(p, "w").write(s)
        res = {}
        cs = want or (allc if m["kind"] == "ref" or not m["exp"] else m["exp"])
        for c in cs:
            r = subprocess.run(["python3", V + "/checks/run.py", c], capture_output=True, text=True, env=dict(os.environ, SDDX_REPO=d, SDDX_CACHE=d + "/cache", SDDX_EVIDENCE=d + "/ev"))
            res[c] = (r.returncode, r.stdout, r.stderr)
        return m, res
    finally: shutil.rmtree(d, ignore_errors=True)
ms = [m for m in muts.ALL if (not a.k or a.k in m["name"]) and (not a.r or m["kind"] == "ref") and (not a.m or m["kind"] == "mut") and (not want or m["kind"] == "ref" or set(want) & set(m["exp"]))][a.n:]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for m, res in ex.map(go, ms):
        if "?" in res: print("BROKEN ", m["name"], res["?"]); bad += 1; continue
        hit = [c for c, r in res.items() if r[0] == 1]
        odd = [c for c, r in res.items() if r[0] not in (0, 1) or (r[0] == 1 and "VIOLATION" not in r[1])]
        ok = (not hit if m["kind"] == "ref" else bool(hit)) and not odd
        if not ok: bad += 1
        print("ok     " if ok else "ODD    " if odd else "MISSED " if m["kind"] == "mut" else "ALARM  ", m["name"], "by", hit, odd or "", flush=True)
        if a.v or (not ok and (hit or odd)):
            for c in hit + odd: print("\n".join("      " + l[:400] for l in (res[c][1] + res[c][2][-600:]).splitlines()[-6:]))
        if m["kind"] == "ref":
            for c, r in res.items():
                u = re.search(r"undecided=(\d+)", r[1])
                if u and int(u.group(1)): print("       (%s: %s undecided)" % (c, u.group(1)))
print("bad:", bad, "of", len(ms))
