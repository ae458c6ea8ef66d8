"""C02: equal objects are stored once; equality of handles is equality of content."""
from common import *
HT = "sdd::mem::hash_table::"
UT = "sdd::mem::unique_table"
PTR = "sdd::mem::ptr"
UNQ = "sdd::mem::unique"

def top(eff): return [e for e in eff if not isinstance(e, LoopRec)]
def strip(t):
    """the object a pointer or reference term designates, without the wrappers of temporaries"""
    while t.op in ("addr", "tmp", "deref", "ld", "LV", "moved"): t = t.a[0]
    return t

def check(ctx):
    ctx.rule("unify", "unification looks the new object up once and returns the stored object")
    ctx.rule("unify-hit", "when an equal object is stored, the new one is destroyed once and its memory kept or freed exactly once; the stored one is left alone")
    ctx.rule("unify-miss", "when no equal object is stored, the new one is stored and is neither destroyed nor freed")
    ctx.rule("recycle", "recycled memory is handed out only if it is large enough, and is given up by the table when handed out")
    ctx.rule("recycle-size", "the recorded size of the kept memory is the size it was allocated with")
    ctx.rule("erase", "an unused object is taken out of the table, then destroyed, then freed")
    ctx.rule("handle-equality", "two handles are equal exactly when they designate the same stored object")
    ctx.rule("construct-through-unification", "a handle is made from a new object only by unifying it: allocated by the table, constructed there, unified with the same size, and the handle designates the unified object")
    ctx.rule("deletion-handler", "the deletion handler of a kind of object erases it from the table that stores that kind")
    p = ctx.prog
    for c in [c for c in p.cls(UT)]:
        ms = [f for f in p.methods_of(c) if f.body is not None]
        ctx.each("unify", [f for f in ms if f.name == "operator()"], lambda f: unify(ctx, f))
        ctx.each("recycle", [f for f in ms if f.name == "allocate"], lambda f: alloc(ctx, f))
        ctx.each("erase", [f for f in ms if f.name == "erase"], lambda f: erase(ctx, f))
    ctx.part("equality", lambda: equality(ctx))
    ctx.part("construction", lambda: construction(ctx))
    ctx.part("handlers", lambda: handlers(ctx))
    ctx.include("p_c19", "table")
    ctx.include("p_c03", "content")
    ctx.need("unify", 1); ctx.need("recycle", 1); ctx.need("erase", 1)

def pol(g): return "prim" if g.qn.startswith(HT) else None
def frees(e, p): return (e.kind.startswith("delete") and p in e.args) 
def takes(e, p): return e.kind in ("reset", "std") and len(e.args) > 1 and p in e.args[1:]

def unify(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=pol)
    new = IN(f.params[0]["n"])
    size = None
    th = T("ld", IN("this"))
    for o in outs:
        if o.kind != "ret": ctx.ob("unify", w, None, "raises"); continue
        if any(isinstance(e, LoopRec) for e in o.eff): ctx.ob("unify", w, None, "loop in unification"); continue
        eff = top(o.eff)
        ins = [i for i, e in enumerate(eff) if e.kind == "call" and e.name in (HT + "insert",)]
        if not ins: ctx.ob("unify", w, False if not any(e.name.startswith(HT + "insert") for e in eff) else None, "the object is not looked up in the table"); continue
        e = eff[ins[0]]
        ctx.ob("unify", w, len(ins) == 1 and e.args[1] is new, "what is looked up is %s" % show(e.args[1]))
        t = e.res
        res = strip(I.rv(o.st, o.val)) if not isinstance(o.val, LV) else strip(o.val.a[0] if hasattr(o.val, "a") else o.val.loc)
        miss = o.facts.get(T("fld", t, "second"))
        okres = res is T("fld", t, "first") or (miss is True and res is new)
        ctx.ob("unify", w, okres, "unification returns %s instead of the stored object" % show(res))
        dt = [i for i, x in enumerate(eff) if x.kind == "dtor" and UNQ in x.name]
        fr = [i for i, x in enumerate(eff) if x.kind.startswith("delete") or (x.kind == "reset" and len(x.args) > 1)]
        dnew = [i for i in dt if strip(eff[i].args[0]) is new]
        fnew = [i for i in fr if any(strip(a) is new for a in eff[i].args)]
        other = [i for i in dt + fr if i not in dnew + fnew]
        stored = [i for i in other if any(T("fld", t, "first") in subterms(a) for a in eff[i].args)]
        ctx.ob("unify-hit", w, not stored, "the stored object is destroyed or freed by unification")
        if miss:
            ctx.ob("unify-miss", w, not dnew and not fnew, "an object that has just been stored is destroyed or freed")
        elif miss is False:
            ctx.ob("unify-hit", w, len(dnew) == 1, "the object that is not kept is destroyed %d times" % len(dnew))
            ctx.ob("unify-hit", w, len(fnew) == 1, "the memory of the object that is not kept is disposed of %d times" % len(fnew))
            if len(dnew) == 1 and len(fnew) == 1:
                ctx.ob("unify-hit", w, ins[0] < dnew[0] < fnew[0], "the object that is not kept is freed before it is destroyed, or destroyed before it is looked up")
                x = eff[fnew[0]]
                if x.kind == "reset":
                    szf = [b["n"] for b in f.klass.fields if "size" in b["n"]]
                    want = expected_size(ctx, f)
                    for n in szf[:1]:
                        v = I.read(o.st, T("lf", th, n))
                        ctx.ob("recycle-size", w, cmp_size(v, want), "memory of %s bytes is recorded as %s bytes" % (show(want), show(v)))
        else: ctx.ob("unify", w, None, "outcome of the lookup not tested on this path")

def expected_size(ctx, f):
    """sizeof(stored type) + extra bytes"""
    ex = IN(f.params[-1]["n"])
    return ex

def linear(t):
    """(constant, {atom: coefficient}) of a sum"""
    if t.op == "int": return (t.a[0], {})
    if t.op == "add":
        c, m = 0, {}
        for x in t.a:
            a, b = linear(x); c += a
            for k, v in b.items(): m[k] = m.get(k, 0) + v
        return c, m
    if t.op == "sub" and len(t.a) == 2:
        (c, m), (d, n) = linear(t.a[0]), linear(t.a[1])
        m = dict(m)
        for k, v in n.items(): m[k] = m.get(k, 0) - v
        return c - d, m
    return 0, {t: 1}
def cmp_size(v, extra):
    """v == sizeof(stored) + extra; None when v is not a sum over those"""
    c, m = linear(v)
    m = {k: n for k, n in m.items() if n}
    so = [k for k in m if k.op == "sizeof"]
    oth = [k for k in m if k.op != "sizeof" and k is not extra]
    if oth: return None if any(x.op in ("call", "std", "ite") for k in oth for x in subterms(k)) else False
    return c == 0 and len(so) == 1 and m[so[0]] == 1 and m.get(extra) == 1 and UNQ in str(so[0])

def alloc(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=pol)
    th = T("ld", IN("this"))
    extra = IN(f.params[0]["n"])
    own = [b["n"] for b in f.klass.fields if "unique_ptr" in ctx.prog.type(b.get("t"))]
    szf = [b["n"] for b in f.klass.fields if "size" in b["n"]]
    for o in outs:
        if o.kind != "ret": continue
        r = I.rv(o.st, o.val)
        eff = top(o.eff)
        news = [e for e in eff if e.kind.startswith("new")]
        if r.op in ("new", "newarr") or any(e.res is r for e in news) or "new" in r.op:
            n = None
            for e in news:
                if e.res is r or r in (e.args or ()): n = e
            a = (n.args if n is not None else r.a)
            szs = [x for x in a if isinstance(x, T) and (x.op in ("add", "sub", "int", "sizeof") or x is extra)]
            ctx.ob("recycle", w, cmp_size(szs[-1], extra) if szs else None, "a block of %s bytes is allocated for an object that needs sizeof(object) + %s" % (show(szs[-1]) if szs else "?", show(extra)))
            continue
        src = [n for n in own if T("fld", IN("*this"), n) in subterms(r) or any(T("fld", IN("*this"), n) is x for x in subterms(r))]
        if not src: ctx.ob("recycle", w, None, "returns " + show(r)); continue
        rel = [e for e in eff if e.kind in ("release", "std", "move") and "release" in e.name or e.kind == "release"]
        cur = I.read(o.st, T("lf", th, src[0]))
        gone = bool(rel) or cur is NULL
        ctx.ob("recycle", w, gone, "the kept memory is handed out but still owned by the table")
        big = None
        for k, v in o.facts.items():
            if k.op in ("lt", "le") and any(T("fld", IN("*this"), s) in subterms(k) for s in szf):
                cap = [T("fld", IN("*this"), s) for s in szf if T("fld", IN("*this"), s) in subterms(k)][0]
                l, r2 = k.a
                # facts: need <= cap   ==  not (cap < need)
                if k.op == "lt" and l is cap: big = (not v) and cmp_size(r2, extra)
                elif k.op == "lt" and r2 is cap: big = v and cmp_size(l, extra)
                elif k.op == "le" and r2 is cap: big = v and cmp_size(l, extra)
                elif k.op == "le" and l is cap: big = (not v) and cmp_size(r2, extra)
        if big is None: big = None if any("size" in show(k) for k in o.facts) else False
        ctx.ob("recycle", w, big, "kept memory is handed out without it being large enough (%s)" % showfacts(o.facts))

def erase(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=pol)
    x = IN(f.params[0]["n"])
    for o in outs:
        if o.kind != "ret": ctx.ob("erase", w, None, "raises"); continue
        eff = top(o.eff)
        er = [i for i, e in enumerate(eff) if e.name == HT + "erase" and x in e.args]
        dt = [i for i, e in enumerate(eff) if e.kind == "dtor" and strip(e.args[0]) is x]
        fr = [i for i, e in enumerate(eff) if e.kind.startswith("delete") and x in e.args]
        keep = [i for i, e in enumerate(eff) if e.kind == "reset" and x in e.args]
        ctx.ob("erase", w, len(er) == 1, "the object is taken out of the table %d times" % len(er))
        ctx.ob("erase", w, len(dt) == 1, "the object is destroyed %d times" % len(dt))
        ctx.ob("erase", w, len(fr + keep) == 1, "the memory is freed %d times" % len(fr + keep))
        if len(er) == len(dt) == len(fr + keep) == 1:
            ctx.ob("erase", w, er[0] < dt[0] < (fr + keep)[0], "the object is not taken out of the table before it is destroyed, and destroyed before it is freed")

def equality(ctx):
    p = ctx.prog
    n = 0
    for qn, fld in (("sdd::mem::ptr", None), ("sdd::SDD", "ptr_"), ("sdd::homomorphism", "ptr_"), ("sdd::values::flat_set", "ptr_")):
        for c in p.cls(qn):
            eqs = [g for g in p.fns if g.body is not None and g.name in ("operator==", "operator!=") and len(g.params or []) == 2 and g.params[0].get("cls") == c.id and g.params[1].get("cls") == c.id]
            eqs += [g for g in p.methods_of(c) if g.body is not None and g.name in ("operator==", "operator!=") and g.params and g.params[0].get("cls") == c.id]
            for g in eqs:
                def one(g):
                    nonlocal n
                    I, outs = ctx.run(g)
                    a = IN(g.params[0]["n"]); b = IN(g.params[1]["n"]) if len(g.params) > 1 else IN("*this")
                    for o in outs:
                        r = I.rv(o.st, o.val)
                        n += 1
                        neg = g.name == "operator!="
                        if r.op == "not": neg, r = not neg, r.a[0]
                        ok = None
                        if r.op == "eq":
                            l, q = r.a
                            def strips(t):
                                while t.op == "fld": t = t.a[0]
                                return t
                            roots = {strips(l), strips(q)}
                            ok = not neg and roots == {a, b} and tail(l) == tail(q) and tail(l)[-1:] == ["x_"] or None
                            if neg or roots != {a, b} or tail(l) != tail(q): ok = False
                        elif r.op in ("bool", "int"): ok = None if o.facts else False
                        else: ok = None
                        if ok is None and r.op == "bool" and o.facts:
                            # decided by a branch on the same comparison
                            for k, v in o.facts.items():
                                if k.op == "eq" and tail(k.a[0]) == tail(k.a[1]) and tail(k.a[0])[-1:] == ["x_"]:
                                    ok = (bool(r.a[0]) == v) != neg
                        ctx.ob("handle-equality", site(g), ok, "two handles are %s when %s" % ("different" if neg else "equal", show(r)))
                ctx.each("handle-equality", [g], one)
def tail(t):
    r = []
    while t.op == "fld": r.insert(0, t.a[1]); t = t.a[0]
    return r

def construction(ctx):
    p = ctx.prog
    sites, raws = {}, {}
    for f in p.mine():
        if f.body is None and not f.inits: continue
        for n in walk([f.body, [i.get("e") for i in (f.inits or [])]]):
            if n.get("k") == "ctor" and n.get("f") is not None:
                g = p.fns[n["f"]]
                if g.qn == PTR + "::(ctor)" and g.ck not in ("copy", "move") and g.cls != f.cls: sites.setdefault(f.id, f)
                if g.qn == UNQ + "::(ctor)" and g.ck not in ("copy", "move") and g.cls != f.cls: raws.setdefault(f.id, f)
    if not sites or not raws: raise Vanished("no construction of handles found")
    ctx.analysed(next(iter(sites.values())))
    for f in sites.values(): ctx.each("construct-through-unification", [f], lambda f: handle_site(ctx, f))
    for f in raws.values():
        if f.id not in sites: ctx.each("construct-through-unification", [f], lambda f: handle_site(ctx, f))

def cpol(g):
    q = g.qn
    if q.startswith(UT + "::") or (q.startswith(UNQ + "::") and g.kind == "ctor") or (q.startswith(PTR + "::") and g.kind == "ctor" and g.ck not in ("copy", "move")): return "prim"
    if q.startswith("sdd::dd::alpha_builder::"): return "prim"
    return None

def handle_site(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=cpol)
    p = ctx.prog
    for o in outs:
        if o.kind != "ret": continue
        eff = [x[0] if isinstance(x, tuple) else x for x in flat(o.eff)]
        un = {}
        for e in eff:
            if e.kind == "call" and e.name == UT + "::operator()": un[e.res] = e
        builds = [e for e in eff if e.kind == "construct" and e.name.split("<")[0] == UNQ]
        allocs = [e for e in eff if e.name == UT + "::allocate"]
        # handles built
        vals = [I.rv(o.st, o.val)] + [a for e in eff for a in (e.args or ())] + list(o.st.store.values())
        handles = {t for v in vals for t in subterms(v) if t.op == "ctor" and str(t.a[0]).split("<")[0] == PTR and len(t.a) == 2}
        for h in handles:
            a = strip(h.a[1])
            ok = a in un
            if not ok:
                if a.op in ("in", "fld") and a.op != "call": ok = None   # an already unified object given by the caller
                elif any(a is strip(e.locs[0]) or a is e.res for e in builds if e.locs and e.locs[0] is not None) or a in [e.res for e in allocs] : ok = False
                else: ok = None
            ctx.ob("construct-through-unification", w, ok, "a handle is made on %s, which was not returned by unification" % show(a))
        for e in builds:
            addr = strip(e.locs[0]) if e.locs and e.locs[0] is not None else None
            al = [x for x in allocs if x.res is addr]
            if addr is None: ctx.ob("construct-through-unification", w, None, "place of construction unknown"); continue
            if not al: ctx.ob("construct-through-unification", w, None if addr.op in ("in",) else False, "an object is constructed at %s, which the table did not allocate" % show(addr)); continue
            us = [u for u in un.values() if strip(u.args[1]) is addr]
            ctx.ob("construct-through-unification", w, len(us) == 1, "an object constructed in the table's memory is unified %d times" % len(us))
            for u in us[:1]:
                ctx.ob("construct-through-unification", w, u.args[2] is al[0].args[1], "allocated with %s extra bytes but unified with %s" % (show(al[0].args[1]), show(u.args[2])))
                ctx.ob("construct-through-unification", w, u.args[0] is al[0].args[0], "allocated by %s but unified in %s" % (show(al[0].args[0]), show(u.args[0])))
                ctx.ob("construct-through-unification", w, eff.index(al[0]) < eff.index(e) < eff.index(u), "unified before it is constructed")

def handlers(ctx):
    """set_deletion_handler<U>([&](const U* u){ table.erase(u); }) for each kind"""
    p = ctx.prog
    n = 0
    for f in p.mine():
        if f.body is None and not f.inits: continue
        hs = [x for x in walk([f.body, [i.get("e") for i in (f.inits or [])]]) if x.get("k") == "call" and x.get("f") is not None and p.fns[x["f"]].qn == "sdd::mem::set_deletion_handler"]
        if not hs: continue
        def one(f):
            nonlocal n
            I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn in ("sdd::mem::set_deletion_handler",) or g.qn.startswith(UT + "::") or g.qn.startswith(PTR + "::") or "context" in g.qn or g.name.startswith("mk_") else None)
            for o in outs[:1]:
                for e in [x[0] if isinstance(x, tuple) else x for x in flat(o.eff)]:
                    if e.kind == "call" and e.name == "sdd::mem::set_deletion_handler":
                        n += 1
                        g = e.args[0]
                        for x in subterms(g):
                            if x.op == "closure" and x in I.closures: g = x; break
                        if g.op != "closure" or g not in I.closures: ctx.ob("deletion-handler", site(f), None, "handler " + show(g)); continue
                        ops, env, this = I.closures[g]
                        h = [p.fns[i] for i in ops if p.fns[i].body is not None][0]
                        J = Interp(p, policy=lambda k: "prim" if k.qn.startswith(UT + "::") else None); J.closures = I.closures
                        for s, V in J.call_closure(h, g, [LV(T("lp", "unused"))], o.st.copy() if hasattr(o.st, "copy") else o.st, Frame(f, T("ld", IN("this")), 900, 0), 0):
                            ers = [z for z in top(s.eff) if z.name == UT + "::erase" and z.fn is not None]
                            mine = [z for z in ers if z.args[1] is IN("unused")]
                            ctx.ob("deletion-handler", site(f), len(mine) == 1 and len(ers) == 1, "the deletion handler erases %s" % [show(z.args[1]) for z in ers])
        ctx.each("deletion-handler", [f], one)
    if not n: ctx.ob("deletion-handler", "set_deletion_handler", None, "no deletion handler found")
