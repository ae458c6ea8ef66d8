"""Cases of the one-point analysis, run in parallel: each is one function with one kind of operands."""
import multiprocessing, os, sys, time
from ddinterp import *
from common import *

PROG = None
LIMIT = int(os.environ.get("SDDX_LIMIT", 300))
class Case:
    """name, function, make(I) -> [(state, args, this)], expected(outcome value symbol) -> message or None"""
    def __init__(self, rule, fn, name, make, want=None, under=(), where=None, get=None, judge=None, interp=None, marked=False):
        self.rule, self.fn, self.name, self.make, self.want, self.under, self.where, self.get = rule, fn, name, make, want, under, where, get
        self.judge, self.interp, self.marked = judge, interp, marked

CASES = []
def one(i):
    c = CASES[i]
    sys.setrecursionlimit(20000)
    t = time.time()
    I = (c.interp or DD)(PROG)
    I.marked = c.marked
    I.under = c.under
    I.deadline = t + LIMIT
    res, exc = [], None
    try:
        for st, args, this in c.make(I):
            for o in I.run(c.fn, args=args, st=st, this=this):
                v = I.rv(o.st, o.val) if o.kind == "ret" and o.val is not None else o.val if o.kind == "throw" and c.judge is not None else None
                if v is not None and v.op == "moved": v = v.a[0]
                if c.get is not None and o.kind == "ret": v = c.get(I, o.st, v)
                if c.judge is not None:      # (holds, message)
                    ok, msg = c.judge(I, o.st, o.kind, v)
                    res.append((o.kind, ok, msg, IMP in o.st.store)); continue
                res.append((o.kind, sym(v) if v is not None and isset(v) else None, show(v)[:160] if v is not None else show(o.val)[:160], IMP in o.st.store))
    except Exception as e:
        if os.environ.get("SDDX_STRICT") and not isinstance(e, AnalysisBroken): raise
        exc = "%s: %s" % (type(e).__name__, str(e)[:300])
    bad = [] if exc else I.bad
    bad = [(imp, f.rel, line, msg) for imp, f, line, msg in bad]
    return i, res, exc, sorted(I.why)[:6], bad, I.nstates, time.time() - t

def run_cases(ctx, cases, on):
    """on(case, results, exception, why, flaws)"""
    global PROG, CASES
    PROG, CASES = ctx.prog, cases
    n = min(8, os.cpu_count() or 1, len(cases))
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], "cost", 0))
    tot = 0
    with multiprocessing.get_context("fork").Pool(n) as pool:
        for i, res, exc, why, bad, ns, dt in pool.imap_unordered(one, order, chunksize=1):
            tot += ns
            ctx.analysed(cases[i].fn)
            if os.environ.get("SDDX_TIMES"): print("%6.1fs %6d %s %s" % (dt, ns, cases[i].name, cases[i].fn.qn), file=sys.stderr)
            on(cases[i], res, exc, why, bad)
    ctx.notes.append("abstract states explored by the one-point analysis: %d, in %d cases" % (tot, len(cases)))
