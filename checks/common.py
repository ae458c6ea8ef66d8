"""Obligation book-keeping shared by all checks."""
import json, os, sys, time
from program import *
from engine import *

class Vanished(AnalysisBroken): pass

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.prog = Program()
        self.obs = {}            # (rule, where) -> [ok, msg]
        self.funcs = set()
        self.notes = []
        self.rules = {}
    prefix = ""
    def include(self, mod, what):
        """obligations of another property that this one rests on"""
        import importlib
        old, self.prefix = self.prefix, self.prefix + what + "/"
        try: importlib.import_module(mod).check(self)
        except Exception as e:
            if os.environ.get("SDDX_STRICT"): raise
            self.ob("analysable", mod, None, "not decided: %s: %s" % (type(e).__name__, e))
        finally: self.prefix = old
    def rule(self, rid, text): self.rules[self.prefix + rid] = text
    def analysed(self, fn): self.funcs.add((fn.qn, fn.rel, fn.line))
    def ob(self, rule, where, ok, msg=""):
        """ok: True holds, False violated, None undecided (quiet, reported in the evidence)"""
        k = (self.prefix + rule, where)
        old = self.obs.get(k)
        if old is None: self.obs[k] = [ok, msg]
        elif old[0] is True and ok is not True: self.obs[k] = [ok, msg]
        elif old[0] is None and ok is False: self.obs[k] = [ok, msg]
        return ok
    def fail(self, rule, where, msg): self.ob(rule, where, False, msg)
    def need(self, rule, n):
        c = sum(1 for k in self.obs if k[0] == self.prefix + rule)
        if c < n: raise Vanished("rule %s has %d instances, at least %d were confirmed by hand" % (rule, c, n))
    def run(self, fn, **kw):
        self.analysed(fn)
        args = {k: kw.pop(k) for k in ("this", "args", "st") if k in kw}
        I = kw.pop("interp", None) or Interp(self.prog, **kw)
        outs = I.run(fn, **args)
        for u in I.unknown: self.notes.append("no transfer function for %s (met from %s)" % (u, fn.qn))
        return I, outs
    def each(self, rule, fns, f):
        """runs f(fn) on each function; an engine limit is an undecided obligation, not an alarm"""
        for fn in fns:
            try: f(fn)
            except TooComplex as e: self.ob(rule, site(fn), None, "not decided: " + str(e))
            except RecursionError: self.ob(rule, site(fn), None, "not decided: recursion limit")
            except AnalysisBroken: raise
            except Exception as e:
                if os.environ.get("SDDX_STRICT"): raise
                self.ob(rule, site(fn), None, "not decided: the analysis met a shape it has no rule for (%s: %s)" % (type(e).__name__, e))
    def part(self, name, f):
        """one independent part of a check: what it cannot analyse is undecided, the other parts still decide"""
        try: f()
        except Exception as e:
            if os.environ.get("SDDX_STRICT"): raise
            self.ob("analysable", name, None, "not decided: %s: %s" % (type(e).__name__, e))

def compiles(code, defs=()):
    """type-checks a witness program against the current tree (nothing is run): (ok, first lines of the errors)"""
    import subprocess, tempfile
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "w.cc")
        with open(f, "w") as o: o.write(code)
        r = subprocess.run(["clang++", "-std=c++1y", "-DNDEBUG", "-I" + REPO, "-fsyntax-only", "-w", "-ferror-limit=0", f] + list(defs), capture_output=True, text=True)
        return r.returncode == 0, [l for l in r.stderr.splitlines() if ": error:" in l or ": fatal error:" in l]

def site(fn): return "%s (%s)" % (fn.qn.replace("sdd::", "", 1), fn.rel)

def finish(ctx, known):
    bad = [(k, v) for k, v in ctx.obs.items() if v[0] is False]
    und = [(k, v) for k, v in ctx.obs.items() if v[0] is None]
    good = [(k, v) for k, v in ctx.obs.items() if v[0] is True]
    kf, viol = [], []
    for k, v in bad:
        m = [f for f in known if f.get("status") == "known" and f["property"] == ctx.pid and f["rule"] == k[0] and f["where"] == k[1]]
        (kf if m else viol).append((k, v))
    evd = os.environ.get("SDDX_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    rules = {}
    for k, v in ctx.obs.items():
        r = rules.setdefault(k[0], {"text": ctx.rules.get(k[0], ""), "obligations": 0, "hold": 0, "undecided": 0, "violated": 0})
        r["obligations"] += 1
        r["hold" if v[0] else "undecided" if v[0] is None else "violated"] += 1
    files = sorted({f[1] for f in ctx.funcs})
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {"explanation": "static analysis of the type-checked program exported from /repo's current tree (clang plugin); no code of the repository is run. Each obligation is one rule instance at one site, decided by abstract interpretation or a query over the resolved syntax tree.",
                       "functions_in_export": len(ctx.prog.mine()), "functions_analysed": len(ctx.funcs), "files": files,
                       "obligations": len(ctx.obs), "discharged": len(good), "undecided": [{"rule": k[0], "where": k[1], "why": v[1]} for k, v in und],
                       "known_findings": [{"rule": k[0], "where": k[1]} for k, v in kf],
                       "rules": rules, "samples": [{"rule": k[0], "where": k[1], "result": "holds", "note": v[1]} for k, v in good[:12]],
                       "notes": sorted(set(ctx.notes))[:40]},
          "assumptions": ["the exported instantiations (default configuration 0, 1, 2 plus user callbacks in tu/all.cc) are representative of user instantiations",
                          "assertions are off (NDEBUG), as in release builds", "C++ standard library and Boost containers behave as documented"],
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(evd, ctx.pid + ".json"), "w"), indent=1)
    for k, v in kf: print("KNOWN-FINDING: property=%s %s at %s: %s" % (ctx.pid, k[0], k[1], v[1]))
    if viol:
        rp = os.path.join(evd, ctx.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, v in viol:
                f.write("property %s\nrule     %s: %s\nwhere    %s\nwhy      %s\n\n" % (ctx.pid, k[0], ctx.rules.get(k[0], ""), k[1], v[1]))
        for k, v in viol: print("  [%s] %s: %s" % (k[0], k[1], v[1][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    print("ok property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs" % (ctx.pid, len(ctx.obs), len(good), len(und), len(ctx.funcs), time.time() - ctx.t0))
    return 0
