"""C22: objects that store their operands or arcs after themselves own exactly the memory they use."""
from common import *
import re

INLINE = ("sdd::node", "sdd::hom::_sum", "sdd::hom::_saturation_fixpoint")   # elements lie right after the object
OWNED = ("sdd::dd::nary_op",)                                               # elements lie in memory the object owns
UT = "sdd::mem::unique_table"
TH = T("ld", IN("this"))

def strip(t):
    t = str(t)
    for _ in range(12): t = re.sub(r"<[^<>]*>", "", t)
    return t.replace("const ", "").strip()

def check(ctx):
    ctx.rule("construct", "the constructor constructs each element once, side by side, starting at the elements' address, and records their number")
    ctx.rule("range", "the elements read are those constructed: they start where the constructor put the first one and end after the recorded number")
    ctx.rule("destroy", "destroying the object destroys each of its elements once, before their memory is released")
    ctx.rule("room", "an object is always built in memory that has room for all the elements its constructor puts there")
    ctx.rule("table", "the unique table hands out memory of at least the size of an object plus the size asked for, and never believes a block to be larger than it is")
    ctx.rule("tail", "nothing of the stored object lies behind the place where the elements go")
    ctx.rule("fixed", "the storage of a stored object is large enough for each of the kinds of objects it may hold (type-level witness)")
    p = ctx.prog
    info = {}
    for q in INLINE + OWNED:
        cs = [c for c in p.cls(q, need=False) if any(f.body is not None and f.ck not in ("copy", "move") and f.params for f in p.methods_of(c, "(ctor)"))]
        if not cs: ctx.ob("construct", q, None, "not found")
        for c in cs:
            for f in p.methods_of(c, "(ctor)"):
                if f.body is None or f.ck in ("copy", "move") or not f.params: continue
                ctx.each("construct", [f], lambda f: construct(ctx, f, q in OWNED, info))
            for n in ("begin", "end"): ctx.each("range", [f for f in p.methods_of(c, n) if f.body is not None], lambda f: rng(ctx, f, info))
            ctx.each("destroy", [f for f in p.methods_of(c, "(dtor)") if f.body is not None], lambda f: destroy(ctx, f, info, q in OWNED))
            if not any(f.body is not None and f.kind is not None for f in p.methods_of(c, "(dtor)")): ctx.ob("destroy", c.qn + " (" + c.rel + ")", False, "has elements after itself and no destructor that destroys them")
    ctx.part("moves", lambda: owned_moves(ctx))
    ctx.part("room", lambda: room(ctx, info))
    ctx.each("table", p.find(UT + "::allocate"), lambda f: table_alloc(ctx, f))
    ctx.each("table", p.find(UT + "::operator()"), lambda f: table_unify(ctx, f))
    ctx.part("tail", lambda: tail(ctx))
    ctx.part("fixed", lambda: fixed(ctx))
    for r, n in (("construct", 4), ("range", 4), ("destroy", 4), ("room", 3), ("table", 2), ("tail", 2)): ctx.need(r, n)

def base_of(f, owned, I=None, st=None):
    return None

def construct(ctx, f, owned, info):
    w = site(f)
    I, outs = ctx.run(f)
    k = f.klass
    for o in outs:
        if o.kind != "ret": continue
        loops = [x for x in o.eff if isinstance(x, LoopRec) and any(e.kind == "construct" and e.locs and e.locs[0].op == "ld" and e.locs[0].a[0].op == "phi" for it in x.iters for e in it.eff if isinstance(e, Effect))]
        if len(loops) != 1:
            cons = [e for e, l in flat(o.eff) if e.kind == "construct"]
            ctx.ob("construct", w, None if cons or any(isinstance(x, LoopRec) for x in o.eff) or any(isinstance(x, Effect) and x.kind == "call" for x in o.eff) else False, "no element is constructed when " + showfacts(o.facts)); continue
        L = loops[0]
        el = None
        for it in L.iters:
            cs = [e for e in it.eff if isinstance(e, Effect) and e.kind == "construct" and e.locs and e.locs[0].op == "ld" and e.locs[0].a[0].op == "phi"]
            if it.end not in ("end", "cont"):
                ctx.ob("construct", w, False if it.end == "brk" else None, "the loop over the elements stops (%s) when %s" % (it.end, showfacts(it.facts))); continue
            if len(cs) != 1:
                ctx.ob("construct", w, False, "%d elements are constructed for one operand when %s" % (len(cs), showfacts(it.facts))); continue
            e = cs[0]; el = el or e
            if e.locs[0] is not el.locs[0]: ctx.ob("construct", w, None, "two places")
            # the element constructed is the operand of this round
            src = {x for a in e.args for y in subterms(a) for x in subterms(L.phis[y]['init'] if y in L.phis else y)}
            ctx.ob("construct", w, True if any(x.op == "pos" or (x.op == "elem") or x is L.src for x in src) else None, "an element is constructed from " + ", ".join(show(a) for a in e.args))
        if el is None: continue
        ph = L.phis.get(el.locs[0].a[0])
        if ph is None: ctx.ob("construct", w, None, "no induction"); continue
        base = ph["init"]
        for v, it in ph["back"]:
            step = v.op in ("add", "padd") and el.locs[0].a[0] in v.a and len(v.a) == 2
            inc = [x for x in v.a if x is not el.locs[0].a[0]] if step else []
            ctx.ob("construct", w, (inc and inc[0] is INT(1)) if step else (False if v is el.locs[0].a[0] else None), "after an element at p, the next one goes to %s" % show(v))
        whole = L.src is not None and L.start == "b"
        ctx.ob("construct", w, True if whole else None, "elements come from %s" % (show(L.src) if L.src else None))
        nfield = [x["n"] for x in k.fields if whole and size_of(I.read(o.st, T("lf", TH, x["n"])), L.src)]
        ns = [(x["n"], I.read(o.st, T("lf", TH, x["n"]))) for x in k.fields]
        if whole:
            if nfield: ctx.ob("construct", w, True)
            else:
                s = [x for x in ns if has(x[1], "size") or x[1].op == "int"]
                ctx.ob("construct", w, False if s else None, "the number of elements recorded is %s, while those of %s are constructed" % (", ".join("%s = %s" % (a, show(b)) for a, b in (s or ns)), show(L.src)))
        if not owned:
            want = T("padd", IN("this"), T("sizeof", k.type))
            ok = base.op == "padd" and base.a[0] is IN("this") and base.a[1].op == "sizeof" and strip(base.a[1].a[0]) == strip(k.type)
            ctx.ob("construct", w, ok or (False if base is IN("this") else None), "the first element goes to " + show(base))
        else:
            al = [e for e, _ in flat(o.eff) if e.kind == "new[]" or "operator new" in e.name]
            got = al[0].args[0] if al and al[0].args else None
            if not al: ctx.ob("room", w, None, "no allocation found")
            else:
                ctx.ob("room", w, enough(got, L.src, el.name, k), "%s bytes are allocated for the elements of %s" % (show(got), show(L.src)))
                ctx.ob("construct", w, True if base is al[0].res or (base.op == "newarr") else None, "the first element goes to " + show(base))
            bf = [x["n"] for x in k.fields if I.read(o.st, T("lf", TH, x["n"])) is base]
            ctx.ob("construct", w, True if bf else None, "the address of the elements is not recorded")
            info.setdefault(k.id, {})["bfield"] = bf[0] if bf else None
        info.setdefault(k.id, {}).update({"n": nfield[0] if nfield else None, "elem": el.name, "base": base, "src": L.src, "ctor": f})
        info.setdefault(("q", k.qn), info[k.id])

def size_of(t, c):
    return t is not None and ((t.op == "size" and t.a[0] is c) or (c.op == "coll" and t is INT(len(c.a))))

def factors(t):
    if t.op == "mul": return [y for x in t.a for y in factors(x)]
    return [t]
def enough(t, src, elem, k=None):
    """bytes t are exactly (or at least) those of the elements of src: True / False / None"""
    if t is None: return None
    fs = factors(t)
    sz = [x for x in fs if x.op == "sizeof"]
    nb = [x for x in fs if size_of(x, src) or (x.op == "size")]
    oth = [x for x in fs if x not in sz and x not in nb]
    if len(sz) == 1 and len(nb) == 1 and all(x.op == "int" and x.a[0] >= 1 for x in oth):
        if not size_of(nb[0], src): return None if nb[0].a[0].op not in ("in", "fld") else False
        return True if strip(sz[0].a[0]) == strip(elem) else False if strip(sz[0].a[0]).startswith("sdd::") or strip(sz[0].a[0]) in ("char", "int") else None
    if t.op in ("add", "padd"):
        r = [enough(x, src, elem) for x in t.a]
        ints = [x for x in t.a if x.op == "int"]
        if True in r and all(x.a[0] >= 0 for x in ints) and all(x.op in ("int", "sizeof", "mul") for x in t.a): return True
        if True in r and any(x.a[0] < 0 for x in ints): return False
    atoms = {x.op for x in subterms(t)}
    if len(sz) == 1 and any(size_of(x, src) for x in subterms(t)):
        r = [x for x in fs if x not in sz]
        if len(r) == 1 and r[0].op == "add" and len(r[0].a) == 2 and any(size_of(x, src) for x in r[0].a):
            c = [x for x in r[0].a if not size_of(x, src)]
            if c and c[0].op == "int": return c[0].a[0] >= 0
    if len(sz) == 1 and any(x.op in ("distance",) for x in fs): return False
    if atoms <= {"mul", "size", "sizeof", "int", "in", "fld", "add", "bin"}: return False
    return None

def rng(ctx, f, info):
    w = site(f)
    d = info.get(f.klass.id)
    if not d: ctx.ob("range", w, None, "the constructor was not understood"); return
    I, outs = ctx.run(f)
    for o in outs:
        if o.kind != "ret": continue
        v = I.rv(o.st, o.val)
        def isbase(t):
            if d.get("bfield"): return t is T("fld", IN("*this"), d["bfield"])
            return t.op == "padd" and t.a[0] is IN("this") and t.a[1].op == "sizeof" and strip(t.a[1].a[0]) == strip(f.klass.type)
        if f.name == "begin":
            ctx.ob("range", w, True if isbase(v) else (False if v is IN("this") or (v.op == "padd" and (isbase(v.a[0]) or all(x.op in ("sizeof", "int") for x in v.a[1:]))) else None), "elements are read from %s, and were constructed from %s" % (show(v), show(d["base"])))
        else:
            n = T("fld", IN("*this"), d["n"]) if d["n"] else None
            if v.op == "padd" and isbase(v.a[0]):
                ctx.ob("range", w, True if v.a[1] is n else (False if n is not None else None), "%s elements are read, the number recorded is %s" % (show(v.a[1]), show(n) if n else "?"))
            elif v.op == "padd" and v.a[0].op == "padd" and isbase(v.a[0].a[0]): ctx.ob("range", w, False, "elements are read up to " + show(v))
            elif isbase(v): ctx.ob("range", w, False, "no element is read")
            else: ctx.ob("range", w, None, "ends at " + show(v))

def destroy(ctx, f, info, owned):
    w = site(f)
    d = info.get(f.klass.id) or info.get(("q", f.klass.qn))
    if not d: ctx.ob("destroy", w, None, "the constructor was not understood"); return
    I, outs = ctx.run(f)
    E = strip(d["elem"])
    bf = T("fld", IN("*this"), d["bfield"]) if d.get("bfield") else None
    for o in outs:
        if o.kind != "ret": continue
        isnull = bf is not None and any((k.op == "eq" and bf in k.a and NULL in k.a and v) or (k is bf and not v) for k, v in o.facts.items())
        loops = [x for x in o.eff if isinstance(x, LoopRec)]
        dt = [(e, l) for e, l in flat(o.eff) if e.kind == "dtor" and strip(e.name).startswith(E)]
        rel = [e for e, _ in flat(o.eff) if e.kind.startswith("delete") or "operator delete" in e.name]
        if isnull:
            ctx.ob("destroy", w, not dt and not rel or None, "an object without elements releases some"); continue
        if not dt:
            ctx.ob("destroy", w, False if not any(isinstance(x, Effect) and x.kind == "call" for x in o.eff) else None, "no element is destroyed when " + showfacts(o.facts))
        else:
            ls = {id(l[0][0]) if l else None for e, l in dt}
            L = dt[0][1][0][0] if dt[0][1] else None
            if L is None or len(ls) != 1: ctx.ob("destroy", w, None, "elements are destroyed in several places")
            else:
                pl = ptrloop(L) if L.src is None else None
                if pl:
                    v, a, b = pl
                    def isb(t): return t is bf if bf is not None else (t.op == "padd" and t.a[0] is IN("this") and t.a[1].op == "sizeof" and strip(t.a[1].a[0]) == strip(f.klass.type))
                    n = T("fld", IN("*this"), d["n"]) if d["n"] else None
                    bok = b.op == "padd" and isb(b.a[0]) and b.a[1] is n
                    known = (isb(a) or (a.op == "padd" and isb(a.a[0]))) and b.op == "padd" and (isb(b.a[0]) or b.a[0].op == "padd" and isb(b.a[0].a[0]))
                    ctx.ob("destroy", w, True if isb(a) and bok else (False if known else None), "elements are destroyed from %s to %s" % (show(a), show(b)))
                    for it in L.iters:
                        n = [e for e in it.eff if isinstance(e, Effect) and e.kind == "dtor" and strip(e.name).startswith(E)]
                        ctx.ob("destroy", w, len(n) == 1 if it.end in ("end", "cont") else (False if it.end == "brk" else None), "%d elements are destroyed at a time when %s (%s)" % (len(n), showfacts(it.facts), it.end))
                    L = None
            if L is not None and len(ls) == 1:
                whole = L.src is not None and L.start == "b" and (L.src is IN("*this") or (L.src.op == "arr" and (L.src.a[1] is T("fld", IN("*this"), d["n"]) if d["n"] else False)) or L.src.op == "seq")
                part = L.src is not None and L.src.op in ("arr", "seq") and not whole
                ctx.ob("destroy", w, True if whole else (False if part else None), "elements of %s are destroyed" % (show(L.src) if L.src else "?"))
                for it in L.iters:
                    n = [e for e in it.eff if isinstance(e, Effect) and e.kind == "dtor" and strip(e.name).startswith(E)]
                    ctx.ob("destroy", w, len(n) == 1 if it.end in ("end", "cont") else (False if it.end == "brk" else None), "%d elements are destroyed at a time when %s (%s)" % (len(n), showfacts(it.facts), it.end))
        if owned:
            mem = [e for e in rel if any(bf is a for a in e.args)]
            ctx.ob("destroy", w, len(mem) == 1 if rel or not any(isinstance(x, Effect) and x.kind == "call" for x in o.eff) else None, "the memory of the elements is released %d times when %s" % (len(mem), showfacts(o.facts)))
            order = [("d" if (isinstance(x, LoopRec) and any(isinstance(e, Effect) and e.kind == "dtor" for it in x.iters for e in it.eff)) else "r" if isinstance(x, Effect) and x in mem else "") for x in o.eff]
            order = "".join(order)
            ctx.ob("destroy", w, "rd" not in order, "the memory of the elements is released before they are destroyed")

def owned_moves(ctx):
    p = ctx.prog
    for q in OWNED:
        for c in p.cls(q, need=False):
            for f in p.methods_of(c, "(ctor)"):
                if f.ck == "copy" and not f.deleted and f.body is not None: ctx.ob("destroy", site(f), None, "copyable")
                if f.ck != "move" or f.body is None: continue
                w = site(f)
                ctx.analysed(f)
                I, outs = ctx.run(f)
                o_ = f.params[0]["n"]
                for o in outs:
                    ptrs = [x["n"] for x in c.fields if ctx.prog.type(x.get("t")).replace("const", "").strip().endswith("*")]
                    for n in ptrs:
                        mine = I.read(o.st, T("lf", TH, n))
                        theirs = I.read(o.st, T("lf", T("lp", o_), n))
                        if mine is T("fld", IN(o_), n): ctx.ob("destroy", w, theirs is NULL, "after a move both objects own the elements at %s" % show(mine))
                        elif theirs is mine: ctx.ob("destroy", w, False, "after a move both objects own the same elements")
                        else: ctx.ob("destroy", w, None, "after a move the elements are at %s" % show(mine))
            if c.qn in OWNED:
                for f in p.methods_of(c, "operator="):
                    if f.body is not None: ctx.ob("destroy", site(f), None, "assignable")

def prim(names): return lambda g: "prim" if g.qn in names else None

def room(ctx, info):
    p = ctx.prog
    MV, MK = "sdd::hom::make_variable_size", "sdd::hom::make"
    var = {q for q in INLINE}
    def targ(g):
        # the second template argument
        return template_args(g.ta or "")
    # 1. the generic maker passes what it was asked
    for f in p.find(MV):
        w = site(f)
        def g(f):
            I, outs = ctx.run(f, policy=prim({UT + "::allocate", UT + "::operator()"}))
            ex = IN(f.params[0]["n"])
            for o in outs:
                if o.kind != "ret": continue
                al = [e for e, _ in flat(o.eff) if e.name == UT + "::allocate"]
                un = [e for e, _ in flat(o.eff) if e.name == UT + "::operator()"]
                co = [e for e, _ in flat(o.eff) if e.kind == "construct" and strip(e.name) == "sdd::mem::unique"]
                if len(al) != 1 or len(un) != 1 or not co: ctx.ob("room", w, None, "%d allocations, %d unifications" % (len(al), len(un))); continue
                ctx.ob("room", w, geq(al[0].args[1], ex), "%s bytes are needed behind the object and %s are asked for" % (show(ex), show(al[0].args[1])))
                ctx.ob("room", w, geq(al[0].args[1], un[0].args[2]), "memory for %s is declared as having %s" % (show(al[0].args[1]), show(un[0].args[2])))
                ctx.ob("room", w, True if co[0].locs[0].op == "ld" and co[0].locs[0].a[0] is al[0].res else None, "the object is built at " + show(co[0].locs[0]))
        ctx.each("room", [f], g)
    # 2. callers ask for the room of their elements
    done = 0
    for f in p.mine():
        if f.qn in (MV,) : continue
        calls = [x["f"] for x in walk(f.body) if x.get("k") == "call" and isinstance(x.get("f"), int) and p.fns[x["f"]].qn in (MV, MK)]
        if not calls: continue
        kinds = {i: kind_of(p.fns[i]) for i in calls}
        if f.qn == MK: continue
        if not any(any(strip(k) == v for v in var) for k in kinds.values()): continue
        done += 1
        w = site(f)
        def g(f):
            inner = lambda h: "prim" if h.qn in (MV, MK) else None
            I, outs = ctx.run(f, policy=inner)
            n = 0
            for o in outs:
                for e, _ in flat(o.eff):
                    if e.name not in (MV, MK): continue
                    k = strip(kind_of(e.fn))
                    if k not in var: continue
                    n += 1
                    d = info.get(("q", k))
                    if e.name == MK: ctx.ob("room", w, False, "an object with elements is built without room for them"); continue
                    if not d: ctx.ob("room", w, None, "constructor not understood"); continue
                    ex, args = e.args[0], e.args[1:]
                    # the collection passed to the constructor
                    ctor = d["ctor"]; src = d["src"]
                    pn = [q for q in ctor.params if src is IN(q["n"]) or IN(q["n"]) in set(subterms(src))]
                    if len(pn) != 1: ctx.ob("room", w, None, "which operand holds the elements?"); continue
                    i = ctor.params.index(pn[0])
                    real = subst(src, {IN(pn[0]["n"]): args[i]})
                    ctx.ob("room", w, enough(ex, real, d["elem"]), "%s bytes are asked for, and the elements of %s are stored" % (show(ex), show(real)))
            if not n: ctx.ob("room", w, None, "no construction reached")
        ctx.each("room", [f], g)
    # 3. nodes
    for f in p.mine():
        if f.qn.startswith(UT) or f.qn == MV: continue
        cl = [p.fns[x["f"]] for x in walk(f.body) if x.get("k") == "call" and isinstance(x.get("f"), int)]
        if not any(c.qn == UT + "::allocate" for c in cl): continue
        def g(f):
            w = site(f)
            names = {UT + "::allocate", UT + "::operator()"}
            I, outs = ctx.run(f, policy=prim(names))
            for o in outs:
                if o.kind != "ret": continue
                al = [e for e, _ in flat(o.eff) if e.name == UT + "::allocate"]
                un = [e for e, _ in flat(o.eff) if e.name == UT + "::operator()"]
                co = [e for e, _ in flat(o.eff) if e.kind == "construct" and strip(e.name) in var]
                el = [(e, l) for e, l in flat(o.eff) if e.kind == "construct" and l and e.locs[0].op == "ld"]
                if len(al) != 1 or len(un) != 1: ctx.ob("room", w, None, "%d allocations, %d unifications" % (len(al), len(un))); continue
                fixed_kind = [e for e, _ in flat(o.eff) if e.kind == "construct" and strip(e.name) not in ("sdd::mem::unique",) and not _]
                if not co and not el:
                    ctx.ob("room", w, True if al[0].args[1] is un[0].args[2] else geq(al[0].args[1], un[0].args[2]), "memory for %s is declared as having %s" % (show(al[0].args[1]), show(un[0].args[2]))); continue
                if len(el) != 1: ctx.ob("room", w, None, "elements"); continue
                src = el[0][1][0][0].src
                ctx.ob("room", w, enough(al[0].args[1], src, el[0][0].name), "%s bytes are asked for, and the elements of %s are stored" % (show(al[0].args[1]), show(src)))
                ctx.ob("room", w, geq(al[0].args[1], un[0].args[2]), "memory for %s is declared as having %s" % (show(al[0].args[1]), show(un[0].args[2])))
        ctx.each("room", [f], g)

def geq(a, b):
    if a is b: return True
    if a.op == "int" and b.op == "int": return a.a[0] >= b.a[0]
    import p_c16
    d = p_c16.sub(a, b)
    if not d[1]: return d[0] >= 0
    if all(v > 0 for k, v in d[1]) and d[0] >= 0: return True
    if all(v < 0 for k, v in d[1]) and d[0] <= 0: return False
    return False if all(k.op in ("in", "sizeof", "mul", "size", "int") for k, v in d[1]) else None

def template_args(s):
    s = s.strip()
    if not s.startswith("<"): return []
    out, d, cur = [], 0, ""
    for ch in s[1:-1]:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]

def kind_of(g):
    a = template_args(g.ta or "")
    return a[1] if len(a) > 1 else ""

def table_alloc(ctx, f):
    w = site(f)
    I, outs = ctx.run(f)
    n = IN(f.params[0]["n"])
    import p_c16
    U = [c for c in f.klass.fields if "unique_ptr" in ctx.prog.type(c.get("t"))]
    C = U[0]["n"] if U else None
    for o in outs:
        if o.kind != "ret": continue
        r = I.rv(o.st, o.val)
        heap = [e for e, _ in flat(o.eff) if e.kind == "new[]" or "operator new" in e.name]
        def isneed(t):
            d = p_c16.norm(p_c16.lin(t))
            s = [k for k, v in d[1] if k.op == "sizeof" and v == 1 and strip(k.a[0]) == "sdd::mem::unique"]
            return any(k is n and v == 1 for k, v in d[1]) and bool(s) and d[0] >= 0 and all(v > 0 for _, v in d[1])
        if heap:
            a = heap[0].args[0]
            ok = isneed(a)
            ctx.ob("table", w, ok or (False if all(x.op in ("in", "sizeof", "add", "int", "mul") for x in subterms(a)) else None), "a new block has %s bytes" % show(a))
        elif C and r is T("fld", IN("*this"), C):
            # reused block: some fact must say need <= its size
            ok = None
            for k, v in o.facts.items():
                if k.op not in ("lt", "le"): continue
                x, y = k.a
                lo, hi = (x, y) if v else (y, x)     # lo <= hi
                if isneed(lo) and hi.op == "fld" and hi.a[0] is IN("*this"): ok = True
                elif ok is None and hi.op == "fld" and not isneed(lo): ok = False
                elif ok is None and lo.op == "fld" and lo.a[0] is IN("*this") and isneed(hi): ok = False
            if ok is None and not any(k.op in ("lt", "le", "eq") and n in set(subterms(k)) for k in o.facts): ok = False
            ctx.ob("table", w, ok, "the kept block is handed out when " + showfacts(o.facts))
        else: ctx.ob("table", w, None, "hands out " + show(r))

def table_unify(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn.startswith("sdd::mem::hash_table::") else None)
    import p_c16
    pn, ex = f.params[0]["n"], IN(f.params[1]["n"])
    for o in outs:
        keep = [e for e, _ in flat(o.eff) if e.kind == "reset" or (e.kind == "write" and False)]
        sizes = [x["n"] for x in f.klass.fields if ctx.prog.type(x.get("t")).replace("const", "").strip() in ("std::size_t", "unsigned long", "size_t")]
        if not keep: 
            for s in sizes: ctx.ob("table", w, True if I.read(o.st, T("lf", TH, s)) is T("fld", IN("*this"), s) else None, "the size of the kept block changes")
            continue
        for s in sizes:
            v = I.read(o.st, T("lf", TH, s))
            d = p_c16.norm(p_c16.lin(v))
            def ok():
                if v is T("fld", IN("*this"), s): return False
                c, ms = d
                pos = {k: x for k, x in ms}
                if any(k.op not in ("in", "sizeof") for k in pos): return None
                if pos.get(ex, 0) > 1: return False
                sz = [k for k in pos if k.op == "sizeof"]
                if any(strip(k.a[0]) != "sdd::mem::unique" or pos[k] > 1 for k in sz): return False
                if c > 0: return False
                return True
            ctx.ob("table", w, ok(), "a block of sizeof(Unique) + %s bytes is kept as having %s" % (show(ex), show(v)))

def tail(ctx):
    """the chain Unique > variant > storage > object: each the last member of the previous one"""
    p = ctx.prog
    for q, need in (("sdd::mem::unique", "sdd::mem::variant"), ("sdd::mem::variant", None)):
        n = 0
        for c in p.cls(q):
            if not c.fields: continue
            if need and not any(strip(p.type(x.get("t"))).startswith(need) for x in c.fields): continue
            n += 1
            last = c.fields[-1]
            t = strip(p.type(last.get("t")))
            isd = t.startswith(need) if need else ("index" not in last["n"] and (t not in ("uint8_t", "unsigned char", "std::uint8_t", "unsigned int", "unsigned long", "bool")))
            ctx.ob("tail", "%s (%s)" % (c.qn, c.rel), isd, "'%s' lies behind the stored object, where its elements go" % last["n"])
        if not n: ctx.ob("tail", q, None, "no such class")

WITNESS = r'''
#include "sdd/sdd.hh"
template <typename V> struct chk;
template <typename... Ts> struct chk<sdd::mem::variant<Ts...>>
{
  using V = sdd::mem::variant<Ts...>;
  template <typename T> static constexpr bool one() {
    static_assert(sizeof(typename V::storage_type) >= sizeof(T), "WITNESS storage too small");
    return true;
  }
  static constexpr bool all() { bool r[] = {one<Ts>()...}; (void)r; return true; }
};
template <typename P> struct datum;
template <typename C> void both() {
  using A = typename std::decay<decltype(*std::declval<const sdd::SDD<C>&>())>::type;
  static_assert(chk<A>::all(), "");
  using B = typename std::decay<decltype(*std::declval<const sdd::homomorphism<C>&>())>::type;
  static_assert(chk<B>::all(), "");
}
template void both<sdd::conf0>();
template void both<sdd::conf1>();
template void both<sdd::conf2>();
struct a1 {char c[1];}; struct a2 {char c[20];}; struct a3 {char c[7];}; struct a4 {char c[300];};
static_assert(chk<sdd::mem::variant<a1, a2, a3>>::all(), "");
static_assert(chk<sdd::mem::variant<a2, a1, a3>>::all(), "");
static_assert(chk<sdd::mem::variant<a3, a1, a2>>::all(), "");
static_assert(chk<sdd::mem::variant<a3, a4, a2>>::all(), "");
static_assert(chk<sdd::mem::variant<a1>>::all(), "");
'''
def fixed(ctx):
    w = "mem::variant (sdd/mem/variant.hh)"
    ok, err = compiles(WITNESS)
    if ok: ctx.ob("fixed", w, True)
    else:
        mine = [e for e in err if "WITNESS" in e or "storage_type" in e and "static assertion" in e or "static_assert" in e and "storage" in e]
        ctx.ob("fixed", w, False if mine else None, (mine or err or ["?"])[0])
