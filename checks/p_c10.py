"""C10: simplifications made when building operations do not change their meaning."""
from common import *
import re

ID = T("id")
H = "sdd::hom::"
BUILD = {"sdd::composition": "composition", "sdd::local": "local", "sdd::fixpoint": "fixpoint", "sdd::id": "id"}

class Build(Interp):
    """operations under construction are terms op(kind, operands...)"""
    top = None
    def call(self, fn, obj, vs, st, fr, line):
        if fn.mine and fn.id != self.top:
            if fn.qn in (H + "make", H + "make_variable_size"):
                k = kindof(fn.ta)
                if k: return [(st, T("op", k, *[self.rv(st, v) for v in vs]))]
            if fn.qn == "sdd::id" and not vs: return [(st, ID)]
            if fn.qn in BUILD and fn.rt.startswith("sdd::homomorphism<") and len(vs) == (1 if fn.name == "fixpoint" else 2):
                return [(st, T("op", fn.name, *[self.rv(st, v) for v in vs]))]
            if fn.name in ("selector", "skip") and obj is not None and fn.klass is not None and fn.klass.qn == "sdd::homomorphism":
                return [(st, T("in", fn.name, self.rv(st, obj)))]
            if fn.name in ("operator==", "operator!=") and obj is None and len(vs) == 2 and "homomorphism<" in self.p.type(fn.params[0].get("t")):
                t = T("eq", *sorted((hom(self.rv(st, v)) for v in vs), key=repr))
                return [(st, t if fn.name == "operator==" else T("not", t))]
        return super().call(fn, obj, vs, st, fr, line)
def kindof(ta):
    m = re.match(r"<\s*[^,]+,\s*sdd::hom::_(\w+)", ta or "")
    return m.group(1) if m else None
def hom(t):
    """the operation a handle or its pointer stands for"""
    while t.op == "fld" and t.a[1] in ("ptr_", "x_"): t = t.a[0]
    return t

class Unknown(Exception): pass
class Meaning:
    def __init__(self, expand, facts):
        self.expand, self.rep = expand, {}
        for c, b in facts.items():
            if b and c.op == "eq":
                x, y = hom(c.a[0]), hom(c.a[1])
                if x is ID: self.rep[y] = x
                elif y is ID: self.rep[x] = y
                else:
                    x, y = sorted((x, y), key=repr)
                    self.rep[y] = x
    def find(self, t):
        n = 0
        while t in self.rep and n < 9: t = self.rep[t]; n += 1
        return t
    def of(self, t):
        t = self.find(hom(t))
        if t is ID: return ID
        if t in self.expand: return self.norm(self.expand[t])
        return self.norm(t)
    def norm(self, t):
        if t.op == "op":
            k, a = t.a[0], t.a[1:]
            if k == "composition" and len(a) == 2:
                xs = []
                for x in (self.of(a[0]), self.of(a[1])):
                    if x is ID: continue
                    xs += list(x.a) if x.op == "comp" else [x]
                return self.comp(xs)
            if k == "local" and len(a) == 2:
                h = self.of(a[1])
                return ID if h is ID else T("loc", self.find(a[0]), h)
            if k == "fixpoint" and len(a) == 1:
                h = self.of(a[0])
                return h if h is ID or h.op == "fix" else T("fix", h)
            if k == "if_then_else" and len(a) == 3:
                i, x, y = map(self.of, a)
                return x if i is ID or x is y else T("ite", i, x, y)
            if k == "identity": return ID
            return T("op", k, *[self.find(x) for x in a])
        if t.op in ("in", "fld"): return t
        raise Unknown(show(t)[:100])
    def comp(self, xs):
        r = []
        for x in xs:
            if r and r[-1].op == "loc" and x.op == "loc" and r[-1].a[0] is x.a[0]:
                a, b = r[-1].a[1], x.a[1]
                ys = [y for z in (a, b) for y in (z.a if z.op == "comp" else (z,))]
                h = self.comp(ys)
                r.pop()
                if h is not ID: r.append(T("loc", x.a[0], h))
            else: r.append(x)
        return ID if not r else r[0] if len(r) == 1 else T("comp", *r)

def check(ctx):
    ctx.rule("meaning", "the operation returned by a constructor equals the one asked for, in the algebra of operations (identity is neutral, composition is associative, local operations on one level compose, a fixpoint is idempotent)")
    ctx.rule("operands", "an operand given to a union or an intersection is kept as it is, a local one is kept with the level it works on, and nested ones are opened entirely")
    p = ctx.prog
    F = lambda q, n=None: [f for f in p.find(q, need=False) if f.body is not None and (n is None or len(f.params) == n)]
    def params(f): return [IN(x["n"]) if x.get("n") else T("in", "arg%d" % i) for i, x in enumerate(f.params)]
    def expansion(f, ps, k, i):
        """what the handle ps[k] is, given that ps[i] is the object it designates"""
        t = p.type(f.params[i].get("t"))
        o = ps[i]
        fl = lambda n: T("fld", o, n)
        if "hom::_local<" in t: return T("op", "local", fl("target"), fl("h"))
        if re.search(r"^const sdd::hom::_composition<", t): return T("op", "composition", fl("left"), fl("right"))
        if re.search(r"^const sdd::hom::_fixpoint<", t): return T("op", "fixpoint", fl("h"))
        if re.search(r"^const sdd::hom::_identity<", t): return T("op", "identity")
        return None
    def run(f, want, ex):
        ps = params(f)
        w = "%s (%s)" % (site(f), ", ".join(p.type(x.get("t")).split("<")[0].replace("const sdd::", "") for x in f.params))
        I = Build(p); I.top = f.id
        ctx.analysed(f)
        for o in I.run(f):
            if o.kind != "ret": continue
            m = Meaning({ps[k]: e for k, e in ((k, expansion(f, ps, k, i)) for k, i in ex.items()) if e is not None}, o.st.facts)
            try:
                got, exp = m.of(I.rv(o.st, o.val)), m.norm(want(ps))
                odd = [c for c in o.st.facts if c.op not in ("eq", "in")]
                ctx.ob("meaning", w, True if got is exp else None if odd else False, "builds %s where %s is asked for%s" % (show(got)[:150], show(exp)[:150], " if " + showfacts(o.st.facts)[:150] if o.st.facts else ""))
            except Unknown as u: ctx.ob("meaning", w, None, "not understood: " + str(u))
    ctx.each("meaning", F(H + "composition_builder::operator()", 4), lambda f: run(f, lambda ps: T("op", "composition", ps[2], ps[3]), {2: 0, 3: 1}))
    ctx.each("meaning", F(H + "fixpoint_builder::operator()", 2), lambda f: run(f, lambda ps: T("op", "fixpoint", ps[1]), {1: 0}))
    ctx.each("meaning", [f for f in F("sdd::local", 2)], lambda f: run(f, lambda ps: T("op", "local", ps[0], ps[1]), {}))
    ctx.each("meaning", F("sdd::if_then_else", 3), lambda f: run(f, lambda ps: T("op", "if_then_else", *ps), {}))
    ctx.each("meaning", F("sdd::constant", 1), lambda f: run(f, lambda ps: T("op", "constant", *ps), {}))
    ctx.each("meaning", F("sdd::cons", 3), lambda f: run(f, lambda ps: T("op", "cons", *ps), {}))
    for q in ("sum_builder", "intersection_builder"):
        ctx.each("operands", F(H + q + "::operator()", 2), lambda f: operands(ctx, f, params(f)))
    ctx.part("entry", lambda: entry(ctx, F))
    ctx.need("meaning", 10)

def entry(ctx, F):
    """composition and fixpoint hand their operands to the builders in the right order"""
    p = ctx.prog
    for n, vis, k in (("sdd::composition", "binary_visit", 2), ("sdd::fixpoint", "visit", 1)):
        for f in F(n, k):
            if not f.rt.startswith("sdd::homomorphism<"): continue
            I = Interp(p, policy=lambda g: "prim" if g.name in ("visit", "binary_visit") else None)
            ctx.analysed(f)
            ps = [IN(x["n"]) for x in f.params]
            for o in I.run(f):
                if o.kind != "ret": continue
                v = I.rv(o.st, o.val)
                if v.op == "call" and v.a[0].split("::")[-1] == vis and len(v.a) == 2 + 2 * k:
                    ctx.ob("meaning", site(f) + " operands", list(v.a[2:]) == ps + ps, "the operands are handed over in another order")
                else: ctx.ob("meaning", site(f) + " operands", None, "not a plain dispatch")

def operands(ctx, f, ps):
    p = ctx.prog
    t = p.type(f.params[0].get("t"))
    w = "%s (%s)" % (site(f), t.split("<")[0].replace("const sdd::", ""))
    I = Interp(p, policy=lambda g: "prim" if g.name in ("visit",) else None)
    ctx.analysed(f)
    outs = I.run(f)
    nested = "hom::_sum<" in t if "sum_builder" in f.qn else "hom::_intersection<" in t
    for o in outs:
        if o.kind != "ret": continue
        adds = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind == "add"]
        loops = [e for e in o.eff if isinstance(e, LoopRec)]
        if nested and loops:
            for l in loops:
                for it in l.iters:
                    if it.end == "brk" or it.end == "ret": ctx.ob("operands", w, False, "the operands after some of a nested one are lost (line %s)" % l.line); continue
                    n = sum(1 for e in it.eff if not isinstance(e, LoopRec) and (e.kind == "add" or (e.kind == "call" and e.name.split("::")[-1] == "visit")))
                    ctx.ob("operands", w, True if n == 1 else False if n == 0 and not any(isinstance(e, LoopRec) or e.kind == "call" for e in it.eff) else None, "an operand of a nested one is dropped (line %s)%s" % (l.line, " if " + showfacts(it.facts)[:120] if it.facts else ""))
            continue
        if nested: continue
        if loops: ctx.ob("operands", w, None, "a loop"); continue
        if "hom::_local<" in t:
            l = ps[0]
            tgt, h = T("fld", l, "target"), T("fld", l, "h")
            allt = [x for e in adds for a in e.args if isinstance(a, T) for x in subterms(a)]
            kept = any(a is h or a is ps[1] for e in adds for a in e.args)
            key = any(x is tgt for x in allt) or any(a is ps[1] for e in adds for a in e.args) or any(tgt in set(subterms(x)) for e in adds for x in e.locs if x is not None)
            other = any(e.kind in ("call", "std") for e, _ in flat(o.eff) if e.kind != "add")
            ctx.ob("operands", w, True if kept and key else None if other and not adds else False if not other or not kept and not key else None, "a local operand is not kept with its level%s" % (" if " + showfacts(o.st.facts)[:150] if o.st.facts else ""))
        else:
            kept = any(a is ps[1] for e in adds for a in e.args)
            other = any(e.kind in ("call", "std") for e, _ in flat(o.eff))
            ctx.ob("operands", w, True if kept else None if other else False, "an operand is dropped%s" % (" if " + showfacts(o.st.facts)[:150] if o.st.facts else ""))
