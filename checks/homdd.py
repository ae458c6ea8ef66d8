"""The one-point domain for the application of operations: applying an operation to a set is a primitive whose result is
arbitrary (subject to what the operation claims: a selector returns a subset, a shifter keeps disjoint sets disjoint), and
every application is recorded, so that the result of the code can be compared with what the definition says about them."""
from ddinterp import *

APPS = T("lg", "!app")
ORD = ("next", "nested", "variable", "empty", "position", "identifier", "identifier_variant", "nodes", "size")
class Hom(DD):
    """unders: functions that are analysed rather than primitive"""
    def cls(self, x):
        """the role of an argument"""
        t = tagof(x)
        return t if t.op in ("o", "#") else OT
    def apps(self, st): return st.store.get(APPS, T("apps")).a
    def record(self, st, h, o, x, r):
        a = self.apps(st)
        n = T("ap", h, o, x, r if tagof(x).op == "#" or tagof(x) in self.keeptags else SET(sym(r), sort(r), OT))
        if n not in a: st.store[APPS] = T("apps", *sorted(a + (n,), key=lambda t: repr(self.erase(t, self.em))))
    keeptags = (MTAG,)
    def holds_fact(self, st, what, h): return st.facts.get(T("in", what, h)) is True
    def app(self, st, h, o, x):
        """[(state, result)]"""
        if sym(x) == E_: return [(st, self.new(st, E_, sort(x)))]
        if tagof(x).op == "#" or tagof(x) in self.keeptags:
            for a in self.apps(st):
                if a.a[0] is h and a.a[1] is o and a.a[2] is x: return [(st, a.a[3])]
        z = sort(x) if x.op == "set" else "n"
        out = []
        poss = (E_, O_, I_)
        if self.holds_fact(st, "selector", h) and sym(x) == O_: poss = (E_, O_)
        elif self.holds_fact(st, "shifter", h) and any(a.a[0] is h and sym(a.a[3]) == I_ for a in self.apps(st)): poss = (E_, O_)
        for s_ in poss:
            s2 = st.copy()
            r = self.result(s2, s_, x)
            self.record(s2, h, o, x, r)
            out.append((s2, r))
        return out
    def result(self, st, s_, x): return SET(s_, sort(x) if x.op == "set" else "s", self.fresh(st))
    def clean(self, t):
        t = unm(t)
        while t.op == "ld" or (t.op == "addr" and t.a[0].op == "tmp"): t = t.a[0] if t.op == "ld" else t.a[0].a[0]
        return t
    def hcall(self, fn, obj, vs, st, fr, line):
        n, q = fn.name, fn.qn
        if fn.id in self.under or fr is None: return None
        if q.startswith("sdd::order::") and n in ORD and obj is not None: return [(st, T("om", n, self.clean(self.rv(st, obj))))]
        ishom = q.startswith("sdd::homomorphism::") or (fn.klass is not None and fn.klass.qn.startswith("sdd::hom::") and fn.klass.qn.split("::")[-1][0] == "_") or q.startswith("sdd::hom::function_base::") or q.startswith("sdd::hom::function_derived::") or q.startswith("sdd::hom::inductive_base::")
        if not ishom or obj is None: return None
        h = self.clean(self.rv(st, obj))
        if n in ("skip", "selector", "shifter"):
            return [(st, T("in", n, h, *[self.clean(self.rv(st, v)) for v in vs]))]
        if n == "operator()":
            xs = [unm(self.rv(st, v)) for v in vs]
            sets = [x for x in xs if isset(x)]
            os = [self.clean(x) for x, v in zip(xs, vs) if not isset(x)]
            os = [x for x, g in zip(os, [p for p in fn.params if "SDD<" not in self.p.type(p.get("t"))]) if "order<" in self.p.type(g.get("t"))]
            if len(sets) == 1: return self.app(st, h, os[0] if os else T("noorder"), sets[0])
        return None
    def call(self, fn, obj, vs, st, fr, line):
        r = self.hcall(fn, obj, vs, st, fr, line)
        if r is not None: return r
        return super().call(fn, obj, vs, st, fr, line)
