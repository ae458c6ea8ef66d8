"""shared model of mem::cache: runs its members with the table, the pool and the operation as events"""
from common import *
CACHE = "sdd::mem::cache"
HT = "sdd::mem::hash_table::"
POOL = "sdd::mem::cache::pool::"

def instances(ctx):
    p = ctx.prog
    cs = [c for c in p.cls(CACHE) if any(f.name == "operator()" and f.body is not None for f in p.methods_of(c))]
    if not cs: raise Vanished("no instance of " + CACHE)
    return cs

def opcls(ctx, c):
    """the operation type of a cache instance: parameter type of its call operator"""
    f = [f for f in ctx.prog.methods_of(c) if f.name == "operator()" and f.body is not None][0]
    return f, f.params[0].get("cls")

def policy(ctx, c):
    f, oc = opcls(ctx, c)
    def pol(g):
        if g.qn.startswith(HT) or g.qn.startswith(POOL): return "prim"
        if g.cls is not None and g.cls == oc and g.name == "operator()": return "prim"
        if g.qn == "sdd::mem::apply_filters::operator()": return "prim"
        return None
    return pol, oc

def top(eff): return [e for e in eff if not isinstance(e, LoopRec)]
def calls(eff, qn): return [e for e in top(eff) if e.kind == "call" and e.name == qn]

class View:
    """one path of the cache's call operator"""
    def __init__(self, ctx, c, I, o, oc):
        self.I, self.o, self.eff = I, o, top(o.eff)
        self.loops = [e for e in o.eff if isinstance(e, LoopRec)]
        ix = lambda pred: [i for i, e in enumerate(self.eff) if pred(e)]
        self.eval = ix(lambda e: e.kind == "call" and e.fn is not None and e.fn.cls == oc and e.fn.name == "operator()")
        self.check = ix(lambda e: e.name == HT + "insert_check")
        self.commit = ix(lambda e: e.name == HT + "insert_commit")
        self.erase = ix(lambda e: e.name == HT + "erase")
        self.alloc = ix(lambda e: e.name == POOL + "allocate")
        self.dealloc = ix(lambda e: e.name == POOL + "deallocate")
        self.dtor = ix(lambda e: e.kind == "dtor" and "cache_entry" in e.name)
        self.build = ix(lambda e: e.kind == "construct" and "cache_entry" in e.name)
        self.lru = [(i, e) for i, e in enumerate(self.eff) if e.locs and any(l is not None and root(l) is T("ld", IN("this")) and "lru" in str(l) for l in e.locs) and e.kind in ("std", "add", "remove", "clear", "addall", "write")]
        self.res = I.rv(o.st, o.val)
        self.facts = o.facts
        # what is known about the lookup
        self.found = None
        for k, v in o.facts.items():
            if k.op == "fld" and k.a[1] == "second" and k.a[0].op == "call" and k.a[0].a[0] == HT + "insert_check": self.found = not v
            if k.op == "eq" and k.a[1] is NULL and any(x.op == "call" and x.a[0] == HT + "insert_check" for x in subterms(k.a[0])) and self.found is None and v: self.found = False
        self.filtered = None
        for k, v in o.facts.items():
            if k.op == "call" and k.a[0] == "sdd::mem::apply_filters::operator()": self.filtered = not v
    def checkterm(self): return self.eff[self.check[0]].res
