"""C18: every kind of object is dispatched to the code for its own kind."""
from common import *
VAR = "sdd::mem::variant"
MEM = "sdd::mem::"

def split(ta):
    """top-level template arguments of '<a, b<c>, d>'"""
    s = ta.strip()
    if s.startswith("<"): s = s[1:-1]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def check(ctx):
    ctx.rule("dispatch", "a visitor applied to an object of the i-th kind is called once, with that object viewed as the i-th kind")
    ctx.rule("dispatch-pair", "a visitor applied to two objects of the i-th and j-th kind is called once, with the first viewed as the i-th and the second as the j-th kind")
    ctx.rule("tag", "an object constructed as a kind carries the tag of that kind, and its storage holds an object of that kind")
    ctx.rule("test", "testing for a kind answers whether the tag is that kind's")
    ctx.rule("view", "viewing an object as a kind designates its storage")
    ctx.rule("destroy", "destroying an object runs the destructor of the kind its tag says, on its storage, once")
    ctx.rule("compare", "objects of different kinds are different; objects of one kind are compared by the equality of that kind")
    ctx.rule("hash", "an object is hashed by the hash of its kind")
    ctx.rule("forward", "visiting a handle visits the object it designates, with the operands in the order given")
    p = ctx.prog
    V = {}
    bytype = {c.type: c for c in p.classes}
    for c in p.cls(VAR):
        ts = [bytype.get(t) for t in split(c.ta or c.type[len(VAR):])]
        if ts and all(t is not None for t in ts): V[c.id] = ts
    if not V: raise Vanished("no variant")
    find = lambda n: [f for f in p.find(n) if f.body is not None]
    for f in find(MEM + "apply_visitor"): ctx.each("dispatch", [f], lambda f: unary(ctx, f, V))
    for f in find(MEM + "apply_binary_visitor"): ctx.each("dispatch-pair", [f], lambda f: binary(ctx, f, V))
    for cid, ts in V.items():
        c = p.classes[cid]
        for f in p.methods_of(c):
            if f.body is None: continue
            if f.kind == "ctor" and f.ck not in ("copy", "move"): ctx.each("tag", [f], lambda f: construct(ctx, f, ts))
            if f.kind == "dtor": ctx.each("destroy", [f], lambda f: destroy(ctx, f, ts))
        for f in p.fns:
            if f.body is None or not f.params or f.params[0].get("cls") != cid: continue
            if f.name == "operator==" and len(f.params) == 2: ctx.each("compare", [f], lambda f: compare(ctx, f, ts))
            if f.qn.startswith("std::hash") and f.name == "operator()": ctx.each("hash", [f], lambda f: hashv(ctx, f, ts))
            if f.qn == MEM + "is": ctx.each("test", [f], lambda f: test(ctx, f, ts, bytype))
            if f.qn == MEM + "variant_cast": ctx.each("view", [f], lambda f: view(ctx, f))
    for f in find("sdd::visit"): ctx.each("forward", [f], lambda f: forward(ctx, f, 1))
    for f in find("sdd::binary_visit"): ctx.each("forward", [f], lambda f: forward(ctx, f, 2))
    for r, n in (("dispatch", 4), ("dispatch-pair", 2), ("tag", 4), ("destroy", 1), ("compare", 1), ("hash", 1), ("test", 1), ("view", 1)): ctx.need(r, 1)

def storage_of(I, o, e, i):
    """names the argument designated by the i-th argument of a call: 'x.storage'"""
    t = e.args[i]
    while t.op in ("deref", "addr", "tmp", "ld"): t = t.a[0]
    return t

def iscall(e): return e.kind in ("call", "construct", "callv") and e.fn is not None and e.fn.name == "operator()"
def pol(g): return "prim" if g.name == "operator()" else None

def visitor_name(ctx, f):
    t = ctx.prog.type(f.params[0]["t"])
    return t.replace("sdd::", "").split("<")[0].replace("const ", "").strip(" &") if "lambda" not in t else "lambda"

def unary(ctx, f, V):
    p = ctx.prog
    x = f.params[1]
    ts = V.get(x.get("cls"))
    if ts is None: return
    w = "%s with %s" % (site(f), visitor_name(ctx, f))
    for i, t in enumerate(ts):
        I = Interp(p, policy=pol)
        st = St(); I.write(st, T("lf", T("lp", x["n"]), "index"), INT(i))
        _, outs = ctx.run(f, interp=I, st=st)
        for o in outs:
            if o.kind != "ret": ctx.ob("dispatch", w, None, "raises"); continue
            cs = [e for e, _ in flat(o.eff) if iscall(e)]
            if not cs:
                ctx.ob("dispatch", w, None if any(e.kind == "callv" for e, _ in flat(o.eff)) or I.unknown else False, "no visitor is called for the %s kind" % t.qn); continue
            ctx.ob("dispatch", w, len(cs) == 1, "the visitor is called %d times" % len(cs))
            e = cs[0]
            pc = e.fn.params[0].get("cls") if e.fn.params else None
            if pc is None: ctx.ob("dispatch", w, None, "visitor takes " + p.type(e.fn.params[0]["t"]) if e.fn.params else "nothing")
            else: ctx.ob("dispatch", w, p.classes[pc].type == t.type, "an object of kind %s is given to the code for %s" % (short(t.type), short(p.classes[pc].type)))
            s = storage_of(I, o, e, 1)
            ctx.ob("dispatch", w, True if s is T("fld", IN(x["n"]), "storage") or s is T("lf", T("lp", x["n"]), "storage") else (None if IN(x["n"]) in set(subterms(s)) else False), "the visitor is given %s" % show(s))
            for k, q in enumerate(f.params[2:]):
                if 2 + k < len(e.args): ctx.ob("dispatch", w, strip(e.args[2 + k]) is IN(q["n"] or "arg%d" % (2 + k)) or None, "argument %d is %s" % (k, show(e.args[2 + k])))

def strip(t):
    while t.op in ("moved", "tmp"): t = t.a[0]
    return t
def short(t):
    import re
    for _ in range(6): t = re.sub(r"<[^<>]*>", "", t)
    return t.replace("sdd::", "")

def binary(ctx, f, V):
    p = ctx.prog
    x, y = f.params[1], f.params[2]
    tx, ty = V.get(x.get("cls")), V.get(y.get("cls"))
    if tx is None or ty is None: return
    w = "%s with %s" % (site(f), visitor_name(ctx, f))
    for i, a in enumerate(tx):
        for j, b in enumerate(ty):
            I = Interp(p, policy=pol)
            st = St()
            I.write(st, T("lf", T("lp", x["n"]), "index"), INT(i)); I.write(st, T("lf", T("lp", y["n"]), "index"), INT(j))
            _, outs = ctx.run(f, interp=I, st=st)
            for o in outs:
                if o.kind != "ret": continue
                cs = [e for e, _ in flat(o.eff) if iscall(e)]
                if not cs:
                    ctx.ob("dispatch-pair", w, None if any(e.kind == "callv" for e, _ in flat(o.eff)) or I.unknown else False, "no visitor is called for %s, %s" % (a.qn, b.qn)); continue
                ctx.ob("dispatch-pair", w, len(cs) == 1, "the visitor is called %d times" % len(cs))
                e = cs[0]
                for k, (t, v) in enumerate(((a, x), (b, y))):
                    pc = e.fn.params[k].get("cls") if len(e.fn.params) > k else None
                    if pc is None: ctx.ob("dispatch-pair", w, None, "visitor parameter"); continue
                    ctx.ob("dispatch-pair", w, p.classes[pc].type == t.type, "operand %d of kind %s is given to the code for %s" % (k + 1, short(t.type), short(p.classes[pc].type)))
                    s = storage_of(I, o, e, 1 + k)
                    ctx.ob("dispatch-pair", w, True if s in (T("fld", IN(v["n"]), "storage"), T("lf", T("lp", v["n"]), "storage")) else (None if IN(v["n"]) in set(subterms(s)) else False), "operand %d is %s" % (k + 1, show(s)))

def construct(ctx, f, ts):
    p = ctx.prog
    w = site(f)
    if not f.params or f.params[0].get("cls") is None: ctx.ob("tag", w, None, "constructor without a kind"); return
    k = p.classes[f.params[0]["cls"]]
    if k.qn != MEM + "construct": ctx.ob("tag", w, None, "constructor without a kind"); return
    kind = split(k.ta or k.type[len(MEM + "construct"):])[0]
    w = w + " as " + short(kind)
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.kind == "ctor" and not g.qn.startswith(VAR) else None)
    th = T("ld", IN("this"))
    for o in outs:
        if o.kind != "ret": continue
        v = I.read(o.st, T("lf", th, "index"))
        if v.op == "int": ctx.ob("tag", w, v.a[0] < len(ts) and ts[v.a[0]].type == kind, "an object constructed as %s carries the tag of %s" % (short(kind), short(ts[v.a[0]].type) if v.a[0] < len(ts) else v.a[0]))
        else: ctx.ob("tag", w, None, "tag " + show(v))
        # what is constructed in the storage
        news = [n for n in walk([f.body]) if n.get("k") == "new"]
        built = [p.type(n.get("nt", n.get("t"))) for n in news]
        es = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind in ("construct", "new")]
        for n in news:
            ty = p.type(n.get("t")).rstrip("*").strip()
            ctx.ob("tag", w, True if ty == kind else (None if not any(ty == t.type for t in ts) else False), "an object of kind %s is constructed in the storage of an object of kind %s" % (short(ty), short(kind)))
        for e in es:
            if e.locs and e.locs[0] is not None:
                l = e.locs[0]
                inst = any(x.op in ("lf", "fld") and x.a[1] == "storage" for x in subterms(l))
                ctx.ob("tag", w, True if inst else None, "constructed at " + show(l))

def destroy(ctx, f, ts):
    p = ctx.prog
    th = T("ld", IN("this"))
    for i, t in enumerate(ts):
        I = Interp(p, policy=lambda g: "prim" if g.kind == "dtor" else None)
        st = St(); I.write(st, T("lf", th, "index"), INT(i))
        _, outs = ctx.run(f, interp=I, st=st)
        for o in outs:
            ds = [e for e, _ in flat(o.eff) if e.kind == "dtor" or (e.fn is not None and e.fn.kind == "dtor")]
            own = [e for e in ds if t.qn in e.name]
            oth = [e for e in ds if t.qn not in e.name and any(u.qn + "::" in e.name for u in ts)]
            if trivial(p, t) and not ds: ctx.ob("destroy", site(f), True); continue
            ctx.ob("destroy", site(f), False if oth else True if len(own) == 1 else (None if not own and (I.unknown or any(e.kind == "callv" for e, _ in flat(o.eff))) else len(own) == 1), "destroying an object of kind %s runs %s" % (short(t.type), [e.name.split("<")[0] for e in ds]))
def trivial(p, t): return not any(f.kind == "dtor" for f in p.methods_of(t))

def compare(ctx, f, ts):
    p = ctx.prog
    a, b = f.params[0]["n"], f.params[1]["n"]
    for i, s in enumerate(ts):
        for j, t in enumerate(ts):
            I = Interp(p, policy=lambda g: "prim" if g.name == "operator==" else None)
            st = St()
            I.write(st, T("lf", T("lp", a), "index"), INT(i)); I.write(st, T("lf", T("lp", b), "index"), INT(j))
            _, outs = ctx.run(f, interp=I, st=st)
            for o in outs:
                if o.kind != "ret": continue
                r = I.rv(o.st, o.val)
                if i != j: ctx.ob("compare", site(f), True if r is FALSE else (False if r is TRUE else None), "objects of kinds %s and %s compare %s" % (short(s.type), short(t.type), show(r))); continue
                cs = [e for e, _ in flat(o.eff) if e.kind == "call" and e.fn is not None and e.fn.name == "operator=="]
                ok = len(cs) == 1 and cs[0].fn.params[0].get("cls") == s.id and r is cs[0].res
                if not cs: ok = None if I.unknown or r not in (TRUE, FALSE) else False
                elif not ok and r.op not in ("bool",) and cs[0].fn.params[0].get("cls") == s.id: ok = None
                ctx.ob("compare", site(f), ok, "two objects of kind %s compare %s" % (short(s.type), show(r)))
                if cs: ctx.ob("compare", site(f), both({x.a[0] for e in cs for z in e.args for x in subterms(z) if x.op in ("in", "lp")}, a, b), "an object is compared with itself")

def both(s, a, b): return True if s >= {a, b} else False if s & {a, b} else None

def hashv(ctx, f, ts):
    p = ctx.prog
    a = f.params[0]["n"]
    for i, s in enumerate(ts):
        I = Interp(p, policy=lambda g: "prim" if g.qn.startswith("std::hash") and g.name == "operator()" else None)
        st = St(); I.write(st, T("lf", T("lp", a), "index"), INT(i))
        _, outs = ctx.run(f, interp=I, st=st)
        for o in outs:
            if o.kind != "ret": continue
            cs = [e for e, _ in flat(o.eff) if e.kind == "call" and e.fn is not None and e.fn.params and e.fn.params[0].get("cls") in [t.id for t in ts]]
            ctx.ob("hash", site(f), True if cs and all(e.fn.params[0].get("cls") == s.id for e in cs) else (False if cs else None), "an object of kind %s is hashed as %s" % (short(s.type), [short(p.classes[e.fn.params[0]["cls"]].type) for e in cs]))

def test(ctx, f, ts, bytype):
    p = ctx.prog
    want = split(f.ta or "")
    if not want: ctx.ob("test", site(f), None, "kind tested unknown"); return
    kind = want[0].replace("const ", "").strip(" &")
    if kind not in [t.type for t in ts]: ctx.ob("test", site(f), None, "kind tested " + kind); return
    a = f.params[0]["n"]
    w = site(f) + " of " + short(kind)
    for i, s in enumerate(ts):
        I = Interp(p)
        st = St(); I.write(st, T("lf", T("lp", a), "index"), INT(i))
        _, outs = ctx.run(f, interp=I, st=st)
        for o in outs:
            r = I.rv(o.st, o.val)
            ctx.ob("test", w, None if r.op != "bool" else bool(r.a[0]) == (s.type == kind), "an object of kind %s tests %s for kind %s" % (short(s.type), show(r), short(kind)))

def view(ctx, f):
    a = f.params[0]["n"]
    I, outs = ctx.run(f)
    for o in outs:
        l = o.val.loc if isinstance(o.val, LV) else o.val
        ok = any(x.op in ("lf", "fld") and x.a[1] == "storage" for x in subterms(l)) and not any(x.op in ("padd", "add") for x in subterms(l))
        ctx.ob("view", site(f), True if ok else (False if any(x.op == "padd" for x in subterms(l)) else None), "views %s" % show(l))

def forward(ctx, f, n):
    w = site(f)
    name = MEM + ("apply_visitor" if n == 1 else "apply_binary_visitor")
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn in (MEM + "apply_visitor", MEM + "apply_binary_visitor") else None)
    for o in outs:
        if o.kind != "ret": continue
        cs = [e for e, _ in flat(o.eff) if e.kind == "call" and e.name == name]
        if len(cs) != 1: ctx.ob("forward", w, None, "%d visits" % len(cs)); continue
        e = cs[0]
        for k in range(n):
            roots = {x.a[0] for x in subterms(e.args[1 + k]) if x.op == "in"}
            ctx.ob("forward", w, f.params[1 + k]["n"] in roots, "operand %d visited is %s" % (k + 1, show(e.args[1 + k])))
        ctx.ob("forward", w, I.rv(o.st, o.val) is e.res or o.val is e.res or None if f.rt != "void" else True, "the result of the visit is not returned")
