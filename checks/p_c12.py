"""C12: a level is skipped only by an operation that leaves it untouched."""
from common import *
from homops import *
import homcases, visits

LEVEL = {"sdd::hom::_local": "target", "sdd::hom::_function": "target", "sdd::hom::_saturation_sum": "variable", "sdd::hom::_saturation_intersection": "variable", "sdd::hom::_saturation_fixpoint": "variable"}
NEVER = ("sdd::hom::_constant", "sdd::hom::_cons")
ASSUMED = {("sdd::hom::_if_then_else", "selector"): ("h_if",)}     # the constructor refuses anything else

def predicate(ctx, c, name):
    p = ctx.prog
    f = method(p, c, name)
    w = "%s::%s (%s)" % (c.qn.replace("sdd::", "", 1), name, c.rel)
    if f is None: ctx.ob(name, w, None, "no such predicate"); return
    ctx.analysed(f)
    _, ks, tr = hobj(p, c)
    I = Ops(p); I.under = (f.id,)
    st = St()
    args, this = start(I, f, st)
    outs = []
    for o in I.run(f, args=args, st=st, this=this):
        if o.kind != "ret": ctx.ob(name, w, None, "raises"); continue
        for s2, b in I.fork(o.st, I.rv(o.st, o.val)): outs.append((s2, b))
    need = [T("h", n) for n, k in ks.items() if k in ("hom", "fun") and n not in ASSUMED.get((c.qn, name), ())]
    opts = [T("h", n) for n, k in ks.items() if k == "opt"]
    coll = tr or "set" in ks.values()
    level = LEVEL.get(c.qn) if name == "skip" else None
    def fact(s, h): return s.facts.get(T("in", name, h, ORDER) if name == "skip" else T("in", name, h))
    for s, b in outs:
        imp = IMP in s.store
        def bad(msg): ctx.ob(name, w, None if imp else False, msg + (" (imprecise: %s)" % "; ".join(sorted(I.why)[:3]) if imp else ""))
        if level is not None:
            rel, odd = {"lt", "eq", "gt"}, False      # how the two can compare on this path
            a, v = T("fldv", level), T("om", "variable", ORDER)
            for k, val in s.facts.items():
                if a in k.a and v in k.a and k.op in ("eq", "lt"):
                    r = {"eq"} if k.op == "eq" else {"lt"} if k.a[0] is a else {"gt"}
                    rel &= r if val else {"lt", "eq", "gt"} - r
                elif a in set(subterms(k)): odd = True
            if not rel: continue
            if odd: ctx.ob(name, w, None, "%s is not simply compared with the variable of the level" % level)
            elif b and "eq" in rel: bad("skips the level it works on")
            elif not b and rel != {"eq"}: bad("does not skip a level that is not the one it works on")
            else: ctx.ob(name, w, True)
            continue
        if not b: ctx.ob(name, w, True); continue
        if c.qn in NEVER: bad("claims to be one though it replaces its operand"); continue
        for h in need:
            if fact(s, h) is not True: bad("claims to be one though operand %s was not found to be one" % h.a[0])
        for h in opts:
            if s.facts.get(T("in", "has", h)) is not False and fact(s, h) is not True: bad("claims to be one though operand %s was not found to be one" % h.a[0])
        if coll and (fact(s, MAIN) is not True or s.facts.get(T("in", name, OTHER, *([ORDER] if name == "skip" else []))) is False): bad("claims to be one though one of its operands was not found to be one")
        ctx.ob(name, w, True)

def check(ctx):
    p = ctx.prog
    ctx.rule("skip", "an operation skips a level only if all the operations it is built from do; one that works on a given level skips exactly the others")
    ctx.rule("selector", "an operation is a selector only if all the operations it is built from are")
    ctx.rule("skipped level", "on a level it skips, an operation is applied to every successor with the order moved to the next level and the values stay; otherwise it is applied to the diagram itself")
    ctx.rule("forwarded", "the predicate of an operation is that of the kind of operation it is")
    cs = kinds(ctx)
    if len(cs) < 14: raise Vanished("kinds of operations")
    for c in cs:
        for name in ("skip", "selector"): ctx.part(c.qn + "::" + name, lambda: predicate(ctx, c, name))
    # user operations and the handle forward the question
    def forward(q, name, want):
        def go(f):
            I, outs = ctx.run(f, prims=visits.PRIMS, policy=lambda g: "prim" if g.id != f.id and g.name in ("skip", "selector", "shifter") else None)
            w = "%s [%s]" % (site(f), f.conf[:60])
            for o in outs:
                if o.kind != "ret": ctx.ob("forwarded", w, None, "raises"); continue
                ok = want(o)
                ctx.ob("forwarded", w, ok, "answers %s" % show(o.val)[:120])
        ctx.each("forwarded", [f for f in p.find(q) if f.body is not None], go)
    def asked(name):
        def want(o):
            v = o.val
            neg = False
            while v.op == "not": v, neg = v.a[0], not neg
            said = lambda t: t.op == "call" and str(t.a[0]).split("<")[0].endswith("::" + name)
            if said(v): return not neg
            if v.op == "bool":
                fs = [b for t, b in o.st.facts.items() if said(t)]
                return fs[0] == (v.a[0] != neg) if fs else None
            return False if v.op == "call" else None
        return want
    for q, name in (("sdd::homomorphism::skip", "skip"), ("sdd::homomorphism::selector", "selector")): ctx.part(q, lambda: forward(q, name, asked(name)))
    def user(q, name):
        def go(f):
            I, outs = ctx.run(f, policy=lambda g: "prim" if g.id != f.id and g.name == name else None)
            w = "%s [%s]" % (site(f), f.conf[:80])
            for o in outs:
                if o.kind != "ret": ctx.ob("forwarded", w, None, "raises"); continue
                v, neg = o.val, False
                while v.op == "not": v, neg = v.a[0], not neg
                if v.op == "bool": ctx.ob("forwarded", w, v.a[0] == neg, "claims to be one whatever the user's operation says"); continue
                said = v.op == "call" and ("::" + name) in str(v.a[0])
                ctx.ob("forwarded", w, (not neg) if said else None, "answers %s" % show(o.val)[:120])
        ctx.each("forwarded", [f for f in p.find(q) if f.body is not None], go)
    for q, name in (("sdd::hom::function_derived::selector", "selector"), ("sdd::hom::function_derived::shifter", "shifter"), ("sdd::hom::inductive_derived::skip", "skip"), ("sdd::hom::inductive_derived::selector", "selector")): ctx.part(q, lambda: user(q, name))
    def on(c, res, exc, why, bad):
        w = "%s, %s" % (site(c.fn), c.name)
        if exc is not None: ctx.ob(c.rule, w, None, "not decided: " + exc); return
        if not res: ctx.ob(c.rule, w, None, "no result")
        for kind, ok, msg, imp in res: ctx.ob(c.rule, w, ok if ok is not False or not imp else None, msg + (" (imprecise: %s)" % "; ".join(why) if imp else ""))
    run_cases(ctx, homcases.skipping(ctx), on)
    ctx.need("skip", 14); ctx.need("selector", 14); ctx.need("skipped level", 6)
