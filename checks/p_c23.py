"""C23: diagrams are always in reduced form."""
from common import *
from ddcases import *
import p_c04, homcases

def single(a, b):
    """a node with one arc, from a valuation and a successor"""
    def make_(f):
        def make(I):
            st = St()
            v, s = I.new(st, a, "v"), I.new(st, b, "s")
            lv, ls = T("lg", "val"), T("lg", "succ")
            st.store[lv], st.store[ls] = v, s
            n = len(f.params)
            this = None
            if f.kind == "ctor":
                this = T("lg", "this"); st.store[this] = UNK
            return [(st, [None] * (n - 2) + [LV(lv), LV(ls)], this)]
        return make
    return make_
def fromalpha(kind):
    def make_(f):
        def make(I):
            st = St()
            es = {"none": (), "in": (("I", "I"),), "other": (("I", "O"),), "far": ()}[kind]
            l = T("lg", "builder")
            st.store[l] = T("obj", "sdd::dd::alpha_builder", (("map_", T("bag", "map", tuple((I.fresh(st), T("pair", I.new(st, s, "s"), I.new(st, v, "v"))) for v, s in es), "PSs>Sv" if kind == "far" else False)),))
            this = None
            if f.kind == "ctor": this = T("lg", "this"); st.store[this] = UNK
            return [(st, [None] * (len(f.params) - 1) + [LV(l)], this)]
        return make
    return make_

def creators(ctx):
    p = ctx.prog
    cases = []
    def this(I, st, v):
        v = I.read(st, T("lg", "this"))
        return v if isset(v) else unm(I.field(v, "ptr_"))
    def add(f, name, make, want):
        c = Case("creation", f, name, make(f), want, get=this if f.kind == "ctor" else None); cases.append(c)
    t = lambda f, i: p.type(f.params[i].get("t"))
    issdd = lambda x: strip(x) == "sdd::SDD"
    isval = lambda x: strip(x).startswith("sdd::values::") or issdd(x)
    fs = [f for f in p.fns if f.body is not None and f.klass is not None and f.klass.qn == "sdd::SDD" and (f.kind == "ctor" or f.static)]
    one = [f for f in fs if len(f.params) >= 3 and issdd(t(f, -1)) and isval(t(f, -2)) and strip(str(f.rt) if f.kind != "ctor" else "sdd::SDD") in ("sdd::SDD", "sdd::mem::ptr")]
    many = [f for f in fs if len(f.params) >= 1 and strip(t(f, -1)).replace("&&", "").strip() == "sdd::dd::alpha_builder" and strip(str(f.rt) if f.kind != "ctor" else "sdd::SDD") in ("sdd::SDD", "sdd::mem::ptr")]
    if not one or not many: raise Vanished("creation of a node")
    for f in one:
        for a in "EOI":
            for b in "EOI": add(f, "%s: valuation %s, successor %s" % (sig(p, f), a, b), single(a, b), "E" if "E" in (a, b) else "I" if a == b == "I" else "O")
    for f in many:
        for k, w in (("none", "E"), ("in", "I"), ("other", "O"), ("far", "EO")): add(f, "%s: arcs %s" % (sig(p, f), k), fromalpha(k), w)
    return cases
def sig(p, f): return ", ".join(strip(p.type(x.get("t"))).split("::")[-1] for x in f.params)

def check(ctx):
    ctx.rule("creation", "a node made from a valuation and a successor, or from arcs, is the empty diagram exactly when there is nothing in it")
    ctx.rule("arcs", "every node that the analysed function stores has arcs, and each of them has a valuation and a successor that are not empty, and no value in common with another")
    ctx.rule("builders", "every function that makes a node from arcs it has collected is analysed")
    seen = {}
    def on(c, res, exc, why, bad):
        w = "%s, %s" % (site(c.fn), c.name)
        if exc is not None: ctx.ob("arcs", w, None, "not decided: " + exc); return
        seen[(c.fn.rel, c.fn.line)] = True
        for imp, rel, line, msg in bad:
            if "raises an error" not in msg: ctx.ob("arcs", w, None if imp else False, "%s (%s:%s)%s" % (msg, rel, line, " (imprecise: %s)" % "; ".join(why) if imp else ""))
        ctx.ob("arcs", w, True)
        if c.rule != "creation": return
        for kind, s, shown, imp in res:
            if kind != "ret": ctx.ob("creation", w, None, "raises"); continue
            if s is None: ctx.ob("creation", w, None, "the result is not described by the domain: %s %s" % (shown, why)); continue
            ok = s in c.want
            ctx.ob("creation", w, True if ok else None if imp else False, "the result is %s, must be %s" % (s, c.want))
    cs = creators(ctx) + homcases.rebuilders(ctx) + [c for c in p_c04.build(ctx) if "work" in c.fn.qn or "visitor" in c.fn.qn]
    run_cases(ctx, cs, on)
    # who else makes nodes from collected arcs
    p = ctx.prog
    sinks = {f.id for f in p.fns if f.klass is not None and f.klass.qn == "sdd::SDD" and f.params and "alpha_builder<" in p.type(f.params[-1].get("t"))}
    def calls(f):
        for x in walk(f.body):
            if x.get("k") in ("call", "ctor", "construct", "new") or "f" in x:
                if isinstance(x.get("f"), int): yield x["f"]
        for ini in f.inits or []:
            for x in walk(ini):
                if isinstance(x, dict) and isinstance(x.get("f"), int): yield x["f"]
    for f in p.mine():
        if f.klass is not None and f.klass.qn == "sdd::SDD": continue
        if any(i in sinks for i in calls(f)):
            ctx.ob("builders", "%s line %s" % (site(f), f.line), True if (f.rel, f.line) in seen else None, "makes a node from collected arcs and is not analysed")
    ctx.need("creation", 20); ctx.need("arcs", 30); ctx.need("builders", 4)
