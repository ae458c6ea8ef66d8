"""C06: a memoised result is the result of that very operation on those operands."""
from cachespec import *

def check(ctx):
    ctx.rule("hit", "a result served from the cache is the stored result of the entry the lookup found; nothing is evaluated")
    ctx.rule("miss", "a missing operation is evaluated once, and the value returned is what that evaluation returned")
    ctx.rule("store", "the entry stored after a miss holds the evaluated operation and its result, and is committed where the lookup of that operation ended")
    ctx.rule("order", "the cache is modified only after the evaluation succeeded, and the operation is not given away before it is evaluated")
    ctx.rule("filter", "an operation excluded from caching is evaluated and returned without touching the cache")
    ctx.rule("lookup-equality", "the lookup compares the requested operation with the operation of the stored entry")
    ctx.rule("entry", "an entry keeps the operation and the result it is built from")
    ctx.rule("key-covers-evaluation", "an operation's equality compares every component its evaluation reads")
    ctx.rule("cached-entry-points", "an operation is looked up in the cache of its own context with its own operands")
    for c in instances(ctx):
        f, oc = opcls(ctx, c)
        ctx.each("miss", [f], lambda f: one(ctx, c, f))
    for f in [f for f in ctx.prog.find("sdd::mem::cache_entry::(ctor)") if f.ck not in ("copy", "move")]:
        ctx.each("entry", [f], lambda f: entry(ctx, f))
    ctx.part("key", lambda: keys(ctx))
    ctx.need("miss", 1)

def one(ctx, c, f):
    w = site(f)
    pol, oc = policy(ctx, c)
    I, outs = ctx.run(f, policy=pol)
    op = IN(f.params[0]["n"])
    for o in outs:
        if o.kind != "ret": ctx.ob("miss", w, None, "raises"); continue
        v = View(ctx, c, I, o, oc)
        if v.loops: ctx.ob("miss", w, None, "loop in the lookup"); continue
        mods = v.commit + v.erase + v.build + v.alloc
        if v.filtered:
            ok = len(v.eval) == 1 and v.res is v.eff[v.eval[0]].res
            ctx.ob("filter", w, ok, "an excluded operation returns %s" % show(v.res))
            ctx.ob("filter", w, not mods, "an excluded operation modifies the cache")
            ctx.ob("filter", w, all(v.eff[i].args[0] is op for i in v.eval), "another operation is evaluated")
            continue
        if not v.check: ctx.ob("miss", w, None, "no lookup on this path"); continue
        ct = v.checkterm()
        ck = v.eff[v.check[0]]
        ctx.ob("lookup-equality", w, len(v.check) == 1 and ck.args[1] is op, "the operation looked up is %s" % show(ck.args[1]))
        eqf(ctx, I, w, ck, f)
        if v.found:
            ctx.ob("hit", w, not v.eval, "a hit evaluates the operation again" if v.eval else "")
            ctx.ob("hit", w, v.res is T("fld", T("deref", T("fld", ct, "first")), "result"), "a hit returns %s" % show(v.res))
            ctx.ob("hit", w, not (v.commit or v.build), "a hit inserts an entry")
        elif v.found is False:
            ctx.ob("miss", w, len(v.eval) == 1, "a miss evaluates the operation %d times" % len(v.eval))
            if len(v.eval) != 1: continue
            ev = v.eff[v.eval[0]]
            ctx.ob("order", w, ev.args[0] is op, "the operation evaluated is %s" % show(ev.args[0]))
            before = [v.eff[i] for i in mods if i < v.eval[0]]
            ctx.ob("order", w, not before, "the cache is modified (%s) before the evaluation, which may fail or evaluate other operations" % [e.name.split("::")[-1] for e in before])
            ctx.ob("miss", w, v.res is ev.res, "a miss returns %s instead of the result of the evaluation" % show(v.res))
            if not v.commit and not v.build:
                ctx.ob("store", w, True, "the result is not kept: allowed"); continue
            if len(v.build) != 1 or len(v.commit) != 1:
                ctx.ob("store", w, None if not v.commit else (False if len(v.build) == 1 or len(v.commit) > 1 else None), "entry built %d times, committed %d times" % (len(v.build), len(v.commit))); continue
            b, cm = v.eff[v.build[0]], v.eff[v.commit[0]]
            un = lambda t: t.a[0] if t.op == "moved" else t
            ctx.ob("store", w, len(b.args) >= 2 and b.args[0] is op and b.args[1] is ev.res, "the entry is built from (%s)" % ", ".join(show(a) for a in b.args))
            ctx.ob("store", w, v.build[0] < v.commit[0], "an entry is committed before it is built")
            bl = b.locs[0]
            ctx.ob("store", w, bl.op == "ld" and cm.args[1] is bl.a[0], "the entry committed (%s) is not the one that was built" % show(cm.args[1]))
            ctx.ob("store", w, cm.locs[2] is not None and ck.locs[3] is not None and cm.locs[2] is ck.locs[3], "the entry is committed with other lookup data")
            ctx.ob("store", w, cm.args[0] is ck.args[0] or cm.locs[0] is ck.locs[0], "the entry is committed to another table")
        else: ctx.ob("miss", w, None, "outcome of the lookup not tested on this path")

def eqf(ctx, I, w, ck, f):
    """what the equality functor given to the lookup compares"""
    g = ck.args[2]
    a, b = IN("requested"), IN("entry")
    if g.op != "closure" or g not in I.closures:
        ctx.ob("lookup-equality", w, None, "equality functor " + show(g)); return
    J = Interp(ctx.prog, policy=lambda h: "prim" if h.name == "operator==" else None)
    J.closures = I.closures
    class F: pass
    fr = Frame(f, T("ld", IN("this")), 900, 0)
    ops, env, this = I.closures[g]
    cands = [ctx.prog.fns[i] for i in ops if ctx.prog.fns[i].body is not None]
    for h in cands[:1]:
        for s, V in J.call_closure(h, g, [LV(T("lp", "requested")), LV(T("lp", "entry"))], St(), fr, 0):
            r = J.rv(s, V)
            want = T("fld", b, "operation")
            if r.op == "call" and len(r.a) == 3 and "operator==" in r.a[0]: ok = set(r.a[1:]) == {a, want}
            elif r.op == "eq": ok = set(r.a) == {a, want}
            elif r.op == "bool": ok = False
            else: ok = None
            ctx.ob("lookup-equality", w, ok, "the lookup compares " + show(r))

def entry(ctx, f):
    w = site(f)
    pol = lambda g: "prim" if not g.qn.startswith("sdd::mem::cache_entry") and not (g.klass is not None and g.klass.qn == "sdd::mem::intrusive_member_hook") else None
    I, outs = ctx.run(f, policy=pol)
    th = T("ld", IN("this"))
    pn = [x["n"] or "arg%d" % i for i, x in enumerate(f.params)]
    for o in outs:
        if len(pn) < 2: continue
        opv, rv = I.read(o.st, T("lf", th, "operation")), I.read(o.st, T("lf", th, "result"))
        ctx.ob("entry", w, opv is IN(pn[0]), "the stored operation is " + show(opv))
        ctx.ob("entry", w, rv is IN(pn[1]) if rv.op != "ctor" else None, "the stored result is " + show(rv))

def keys(ctx):
    """members read by an operation's evaluation are compared by its equality"""
    p = ctx.prog
    for c in instances(ctx):
        f, oc = opcls(ctx, c)
        k = p.classes[oc]
        ev = [g for g in p.methods_of(k) if g.name == "operator()" and g.body is not None]
        eqs = [g for g in p.fns if g.body is not None and g.name == "operator==" and len(g.params or []) == 2 and g.params[0].get("cls") == oc] + [g for g in p.methods_of(k) if g.name == "operator==" and g.body is not None]
        if not ev or not eqs: ctx.ob("key-covers-evaluation", "%s (%s)" % (k.qn, k.rel), None, "no evaluation or equality found"); continue
        names = {x["n"] for x in k.fields}
        rd, cmpd = members(p, ev[0], k, names), members(p, eqs[0], k, names)
        ctx.analysed(ev[0]); ctx.analysed(eqs[0])
        for n in sorted(names):
            if n not in rd: continue
            ctx.ob("key-covers-evaluation", "%s::%s (%s)" % (k.qn.replace("sdd::", ""), n, k.rel), n in cmpd, "the evaluation depends on member '%s' but two operations that differ in it compare equal" % n)

def members(p, f, k, names, seen=None):
    """own members a function reads, through calls of the class's own methods"""
    seen = seen if seen is not None else set()
    if f.id in seen: return set()
    seen.add(f.id)
    out = set()
    for n in walk([f.body, [i.get("e") for i in (f.inits or [])]]):
        if n.get("k") == "mem" and n.get("n") in names and n.get("cls", k.id) == k.id: out.add(n["n"])
        if n.get("k") == "call" and n.get("f") is not None:
            g = p.fns[n["f"]]
            if g.cls == k.id and g.body is not None: out |= members(p, g, k, names, seen)
    return out
