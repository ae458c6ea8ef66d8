"""C01 handles: every handle operation conserves reference counts and destroys exactly at zero."""
from common import *

PTR = "sdd::mem::ptr"

def check(ctx):
    p = ctx.prog
    ctx.rule("count-conservation", "after a handle operation, the count of every object has changed by exactly the change in the number of handles that designate it")
    ctx.rule("delete-iff-zero", "the deletion handler is called on an object exactly when its count has just dropped to zero, after the count is final, and once")
    ctx.rule("designates", "the target of an operation designates what the operation says (copy: same object; move: same object and source left empty)")
    ctx.rule("no-use-after-release", "an assignment does not read its source after it may have destroyed it")
    ctx.rule("empty-handle-safe", "an operation never dereferences a null handle")
    cls = p.cls(PTR)
    n = 0
    for c in cls:
        if not c.mine: continue
        dt = [f for f in p.methods_of(c) if f.kind == "dtor" and f.body is not None]
        if not dt: continue
        n += 1
        fns = [f for f in p.methods_of(c) if f.body is not None]
        for f in fns:
            if f.kind == "ctor" or f.ck in ("copyassign", "moveassign") or f.kind == "dtor" or (f.name == "operator=" ):
                ctx.each("count-conservation", [f], lambda f: special(ctx, c, f, dt[0]))
        for f in [g for g in p.fns if g.body is not None and g.name == "swap" and g.rel == "sdd/mem/ptr.hh" and g.params and g.params[0].get("cls") == c.id]:
            ctx.each("count-conservation", [f], lambda f: special(ctx, c, f, dt[0]))
    if n < 3: raise AnalysisBroken("no instance of " + PTR)
    counters(ctx)
    wrappers(ctx)
    ctx.need("count-conservation", 6)

def rcfield(ctx):
    return "ref_count_"

def special(ctx, c, f, dtor):
    p = ctx.prog
    w = "%s%s (%s)" % (f.qn.replace("sdd::", "", 1), "[%s]" % (f.ck or f.kind) if f.kind != "free" else str([p.type(x["t"]).split("<")[0] + ("&&" if p.type(x["t"]).endswith("&&") else "") for x in f.params]), f.rel)
    hfield = c.fields[0]["n"] if c.fields else "x_"
    def pol(fn):
        if fn.qn == "sdd::mem::deletion_handler": return "prim"
        if fn.cls == c.id and fn.kind in ("ctor", "dtor") : return "inline"
        if fn.cls == c.id and fn.ck in ("copyassign", "moveassign"): return "inline"
        return None
    dtors = lambda k: dtor if k == c.id else None
    isptrparam = lambda x: x.get("cls") == c.id
    scen = []
    par = [x for x in f.params if isptrparam(x)]
    raw = [x for x in f.params if not isptrparam(x) and p.type(x["t"]).endswith("*")]
    thisH = f.kind != "free"
    # scenarios: which handles alias / are null / designate the same object
    base = [("distinct", {})]
    if (f.ck in ("copyassign", "moveassign") or f.name == "operator=") and par:
        base += [("target empty", {"null0": True}), ("both designate the same object", {"same": True})]
        if p.type(par[0]["t"]).endswith("&"): base += [("self-assignment", {"alias": True})]
    if f.kind == "dtor": base += [("target empty", {"null0": True})]
    if f.name == "swap": base += [("both designate the same object", {"same": True})]
    for name, o in base:
        I = Interp(p, policy=pol, dtors=dtors)
        st = St()
        X = NULL if o.get("null0") else IN("X")
        Y = IN("X") if (o.get("same") or o.get("alias")) else IN("Y")
        for t in (IN("X"), IN("Y")): st.facts[T("eq", t, NULL)] = False
        if not (o.get("same") or o.get("alias")): st.facts[T("eq", *sorted([IN("X"), IN("Y")], key=repr))] = False
        this = None
        handles = []                    # (location, initial pointee or None for raw storage, alive after)
        args = []
        if thisH:
            this = T("ld", IN("this"))
            if f.kind != "ctor":
                I.write(st, T("lf", this, hfield), X)
                handles.append((this, X, f.kind != "dtor"))
            else: handles.append((this, None, True))
        k = 0
        for x in f.params:
            if isptrparam(x):
                if o.get("alias"): args.append(LV(this)); continue
                l = T("lp", "other%d" % k)
                v = (X if not thisH and k == 0 else Y)
                if p.type(x["t"]).endswith("&"):
                    I.write(st, T("lf", l, hfield), v)
                    handles.append((l, v, True)); args.append(LV(l))
                else:
                    args.append(T("obj", PTR, ((hfield, v),))); handles.append((None, v, False))
                k += 1
            elif p.type(x["t"]).endswith("*"): args.append(IN("Y"))
            else: args.append(None)
        for obj in (IN("X"), IN("Y")):              # a live object's count is at least the number of its handles
            k = sum(1 for l, v, al in handles if v is obj)
            rc0 = T("fld", T("deref", obj), "ref_count_")
            for j in range(k): st.facts[T("eq", rc0 if j == 0 else T("add", rc0, INT(-j)), INT(0))] = False
        I.writes = None
        for fct in list(st.eff): pass
        st.eff = []
        ctx.analysed(f)
        outs = I.run(f, this=this, args=args, st=st)
        for u in I.unknown: ctx.notes.append("no transfer function for " + u)
        if not outs: ctx.ob("count-conservation", w, None, "no outcome"); continue
        for o2 in outs:
            s = o2.st
            tag = "scenario '%s'" % name
            if o2.kind == "throw":
                ctx.ob("count-conservation", w, None, "throws"); continue
            # events
            dels = [e for e in s.eff if e.kind == "callv" and e.args and any(x.op == "call" and x.a[0] == "sdd::mem::deletion_handler" for x in subterms(e.args[0]))]
            for obj in (IN("X"), IN("Y")):
                before = sum(1 for l, v, al in handles if v is obj)
                after = sum(1 for l, v, al in handles if al and I.read(s, T("lf", l, hfield)) is obj)
                rc = T("lf", T("ld", obj), "ref_count_")
                init = T("fld", T("deref", obj), "ref_count_")
                fin = I.read(s, rc)
                d = delta(fin, init)
                if d is None:
                    ctx.ob("count-conservation", w, None, "%s: count of %s ends as %s" % (tag, obj, show(fin))); continue
                ctx.ob("count-conservation", w, d == after - before, "%s: the number of handles on %s changes by %d but its count by %d" % (tag, "the old object" if obj is IN("X") else "the source's object", after - before, d))
                mydels = [e for e in dels if e.args[-1] is obj]
                zero = I.known(s.facts, T("eq", fin, INT(0)))
                if d < 0:
                    if zero is True: ctx.ob("delete-iff-zero", w, len(mydels) == 1, "%s: count reaches zero and the deletion handler is called %d times" % (tag, len(mydels)))
                    elif zero is False: ctx.ob("delete-iff-zero", w, not mydels, "%s: the deletion handler is called although the count is not zero" % tag)
                    else: ctx.ob("delete-iff-zero", w, False, "%s: the count drops and nothing tests whether it reached zero" % tag if not mydels else "%s: handler called without the count being known to be zero" % tag)
                else:
                    ctx.ob("delete-iff-zero", w, not mydels, "%s: the deletion handler is called on an object that is still designated" % tag)
                for e in mydels:
                    # no count change of that object after the handler ran
                    idx = s.eff.index(e)
                    late = [x for x in s.eff[idx + 1:] if x.kind == "write" and any(l is rc for l in x.locs)]
                    ctx.ob("delete-iff-zero", w, not late, "%s: the count of the object is changed after the deletion handler ran on it" % tag)
            # designation
            cur = I.read(s, T("lf", this, hfield)) if this is not None and f.kind != "dtor" else None
            if f.kind == "ctor" and (par or raw) or f.ck in ("copyassign", "moveassign") or f.name == "operator=":
                if f.ck == "moveassign" and o.get("alias"): ok = cur in (X, NULL)
                else: ok = cur is Y
                ctx.ob("designates", w, ok, "%s: the handle designates %s instead of the source's object" % (tag, show(cur)))
            if f.ck in ("copy", "copyassign") and not o.get("alias") and handles[-1][0] is not None:
                ctx.ob("designates", w, I.read(s, T("lf", handles[-1][0], hfield)) is Y, "%s: copying modifies the source" % tag)
            if f.ck in ("move",):
                ctx.ob("designates", w, I.read(s, T("lf", handles[-1][0], hfield)) is NULL, "%s: the source of a move is not left empty" % tag)
            if f.name == "swap":
                a, b = handles[0][0], handles[1][0]
                ctx.ob("designates", w, I.read(s, T("lf", a, hfield)) is Y and I.read(s, T("lf", b, hfield)) is X, "%s: swap does not exchange the handles" % tag)
            # the source of a copy assignment may live inside the object destroyed by it
            if f.ck == "copyassign" and dels:
                e = dels[0]
                idx = s.eff.index(e)
                incs = [i for i, x in enumerate(s.eff) if x.kind == "write" and any(l is T("lf", T("ld", Y), "ref_count_") for l in x.locs)]
                ctx.ob("no-use-after-release", w, all(i < idx for i in incs), "%s: the source's object is only referenced after the old object was destroyed; the source may be part of it" % tag)
            bad = [x for x in s.store if root(x).op == "ld" and root(x).a[0] is NULL]
            ctx.ob("empty-handle-safe", w, not bad, "%s: a null handle is dereferenced" % tag)

def delta(fin, init):
    if fin is init: return 0
    if fin.op == "add" and fin.a[0] is init and fin.a[1].op == "int": return fin.a[1].a[0]
    return None

def counters(ctx):
    """the counter primitives really count"""
    p = ctx.prog
    ctx.rule("counter", "a fresh object has count zero, and the three counter primitives increment, decrement and test for zero")
    for f in p.find("sdd::mem::unique::(ctor)"):
        if f.ck in ("copy", "move"): continue
        try: I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn not in ("sdd::mem::unique::(ctor)", "sdd::mem::intrusive_member_hook::(ctor)") else None)
        except TooComplex: continue
        for o in outs:
            v = I.read(o.st, T("lf", T("ld", IN("this")), "ref_count_"))
            ctx.ob("counter", site(f), v is INT(0) if v.op in ("int",) else None, "a new object starts with count " + show(v))

def wrappers(ctx):
    """SDD and homomorphism are plain wrappers: their special members forward to the handle's, member by member"""
    p = ctx.prog
    ctx.rule("wrapper", "copying, moving, assigning and swapping a diagram or an operation does the same to its single handle")
    for q in ("sdd::SDD", "sdd::homomorphism"):
        for c in p.cls(q):
            if not c.fields: continue
            hf = [x["n"] for x in c.fields]
            for f in p.methods_of(c):
                if f.body is None or f.ck not in ("copy", "move", "copyassign", "moveassign"): continue
                def one(f):
                    I = Interp(p, policy=lambda g: None if g.cls == c.id else ("prim" if g.mine and g.cls is not None and g.kind not in ("ctor",) and g.ck not in ("copyassign", "moveassign") else None))
                    ctx.analysed(f)
                    for o in I.run(f):
                        for h in hf:
                            v = I.read(o.st, T("lf", T("ld", IN("this")), h))
                            want = T("fld", IN(f.params[0]["n"] or "arg0"), h)
                            ctx.ob("wrapper", site(f) + " " + f.ck, v is want or (v.op == "fld" and v.a[1] == h and v.a[0].op == "in"), "member %s becomes %s" % (h, show(v)))
                ctx.each("wrapper", [f], one)
    ctx.need("wrapper", 2)
