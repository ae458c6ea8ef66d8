"""C16: temporary memory of an operation never outlives it nor overlaps another's."""
from common import *
AR = "sdd::mem::arena"
RW = "sdd::mem::rewinder"

def check(ctx):
    ctx.rule("allocate", "a request is served from the scratch area only if it fits in what is left, which then shrinks by exactly the request; otherwise it is served from the heap and the area is untouched")
    ctx.rule("deallocate", "memory of the scratch area is given back only if it is the last one handed out; memory of the heap is freed, and nothing else is")
    ctx.rule("rewind", "rewinding restores exactly the position recorded when the rewinder was made")
    ctx.rule("initial", "the scratch area starts empty and is as large as its recorded size")
    ctx.rule("bytes", "the allocator asks for, and gives back, the size of the elements times their number")
    ctx.rule("scope", "a container in scratch memory is declared after the rewinder of its scope, so that it is gone before the memory is given back")
    ctx.rule("escape", "a function that rewinds the scratch area neither returns a container in it nor grows one that belongs to its caller")
    ctx.rule("covered", "every diagram operation that uses scratch memory rewinds it before it returns")
    p = ctx.prog
    m = lambda c, n: [f for f in p.find(c + "::" + n) if f.body is not None]
    ctx.each("allocate", m(AR, "allocate"), lambda f: allocate(ctx, f))
    ctx.each("deallocate", m(AR, "deallocate"), lambda f: deallocate(ctx, f))
    ctx.each("initial", [f for f in m(AR, "(ctor)") if f.ck not in ("copy", "move")], lambda f: initial(ctx, f))
    ctx.each("rewind", [f for f in m(RW, "(ctor)") if f.ck not in ("copy", "move")], lambda f: rwctor(ctx, f))
    ctx.each("rewind", m(RW, "(dtor)"), lambda f: rwdtor(ctx, f))
    for f in [f for f in p.find("sdd::mem::linear_alloc::allocate") + p.find("sdd::mem::linear_alloc::deallocate") if f.body is not None]: ctx.each("bytes", [f], lambda f: nbytes(ctx, f))
    ctx.part("scope", lambda: scope(ctx))
    ctx.part("covered", lambda: coverage(ctx))
    for r in ("allocate", "deallocate", "rewind", "bytes", "scope"): ctx.need(r, 1)

TH = T("ld", IN("this"))
def F(n): return T("fld", IN("*this"), n)
def fields(f, ctx):
    """(buffer, size, position) fields of the arena, by type"""
    b = [x["n"] for x in f.klass.fields if "unique_ptr" in ctx.prog.type(x.get("t"))]
    s = [x["n"] for x in f.klass.fields if "long" in ctx.prog.type(x.get("t")) or "size_t" in ctx.prog.type(x.get("t"))]
    q = [x["n"] for x in f.klass.fields if ctx.prog.type(x.get("t")).replace("const", "").strip() in ("char *", "position_type", "char*")]
    if not (b and s and q): raise Vanished("fields of the arena")
    return b[0], s[0], q[0]

def lin(t):
    if t.op == "int": return t.a[0], {}
    if t.op in ("add", "padd"):
        c, m = 0, {}
        for x in t.a:
            a, b = lin(x); c += a
            for k, v in b.items(): m[k] = m.get(k, 0) + v
        return c, m
    if t.op == "sub" or (t.op == "bin" and t.a[0] == "-"):
        x, y = (t.a[-2], t.a[-1])
        (c, m), (d, n) = lin(x), lin(y)
        m = dict(m)
        for k, v in n.items(): m[k] = m.get(k, 0) - v
        return c - d, m
    if t.op == "mul" and len(t.a) == 2 and any(x.op == "int" for x in t.a):
        k = [x for x in t.a if x.op == "int"][0]; o = t.a[1] if t.a[0] is k else t.a[0]
        c, m = lin(o); return c * k.a[0], {x: v * k.a[0] for x, v in m.items()}
    if t.op == "neg": 
        c, m = lin(t.a[0]); return -c, {k: -v for k, v in m.items()}
    return 0, {t: 1}
def norm(l): return l[0], frozenset((k, v) for k, v in l[1].items() if v)
def sub(x, y):
    (c, m), (d, n) = lin(x), lin(y)
    m = dict(m)
    for k, v in n.items(): m[k] = m.get(k, 0) - v
    return norm((c - d, m))
def same(x, y): return norm(lin(x)) == norm(lin(y))
def ineqs(facts):
    """known inequalities as (difference, strict): difference > 0 or >= 0"""
    for k, v in facts.items():
        if k.op in ("lt", "le") and len(k.a) == 2:
            x, y = k.a
            if v: yield sub(y, x), k.op == "lt"
            else: yield sub(x, y), k.op == "le"
def implies(facts, want):
    """some known inequality is want >= 0 (or stronger by a constant); False if one has the same atoms but is weaker; None if unrelated"""
    res = None
    for d, strict in ineqs(facts):
        if d[1] == want[1]:
            slack = want[0] - d[0] + (1 if strict else 0)
            if slack >= 0: return True
            res = False
    return res

def allocate(ctx, f):
    w = site(f)
    B, S, P = fields(f, ctx)
    n = IN(f.params[0]["n"])
    I, outs = ctx.run(f)
    room = sub(T("padd", F(B), F(S)), T("add", F(P), n))
    for o in outs:
        if o.kind != "ret": ctx.ob("allocate", w, None, "raises"); continue
        r = I.rv(o.st, o.val)
        pos = I.read(o.st, T("lf", TH, P))
        heap = [e for e, _ in flat(o.eff) if "operator new" in e.name or e.kind in ("new[]",) or "malloc" in e.name]
        if heap:
            ctx.ob("allocate", w, r is heap[0].res or None, "returns " + show(r))
            ctx.ob("allocate", w, pos is F(P), "memory from the heap moves the position of the scratch area")
            a = heap[0].args[-1] if heap[0].args else None
            ctx.ob("allocate", w, None if a is None else same(a, n) if lin(a)[1].keys() <= {n} else None, "a request of %s bytes is served with %s" % (show(n), show(a)))
        elif r is F(P) or same(r, F(P)):
            ctx.ob("allocate", w, same(pos, T("add", F(P), n)), "after handing out %s bytes, the position is %s" % (show(n), show(pos)))
            ok = implies(o.facts, room)
            known = {F(B), F(S), F(P), n}
            und = [d for d, _ in ineqs(o.facts) if any(k is n for k, v in d[1])]
            if ok is None and und and all(k in known or k.op == "sizeof" for d in und for k, v in d[1]): ok = False
            if ok is None: ok = False if not any(F(P) in set(subterms(k)) or n in set(subterms(k)) for k in o.facts) else None
            ctx.ob("allocate", w, ok, "memory is handed out when %s, which does not ensure that it fits" % showfacts(o.facts))
        else:
            # the position may be moved first
            ctx.ob("allocate", w, None if F(P) not in set(subterms(r)) else False, "hands out %s" % show(r))

def deallocate(ctx, f):
    w = site(f)
    B, S, P = fields(f, ctx)
    p, n = IN(f.params[0]["n"]), IN(f.params[1]["n"])
    I, outs = ctx.run(f)
    lo, hi = sub(p, F(B)), sub(T("padd", F(B), F(S)), p)
    def neg(d): return -d[0], frozenset((k, -v) for k, v in d[1])
    for o in outs:
        if o.kind != "ret": continue
        pos = I.read(o.st, T("lf", TH, P))
        freed = [e for e, _ in flat(o.eff) if "operator delete" in e.name or e.kind.startswith("delete") or e.name.endswith("free")]
        inside = implies(o.facts, lo) is True and (implies(o.facts, hi) is True)
        # strictly outside: p < B or p > B + S
        o1 = any(d == neg(lo) and s for d, s in ineqs(o.facts)); o2 = any(d == neg(hi) and s for d, s in ineqs(o.facts))
        outside = o1 or o2
        if freed:
            ctx.ob("deallocate", w, True if outside and not inside else (False if inside or not any(p in set(subterms(k)) for k in o.facts) else None), "memory is given to the heap when " + showfacts(o.facts))
            ctx.ob("deallocate", w, len(freed) == 1 and (p in freed[0].args or None), "frees %s" % [show(a) for e in freed for a in e.args])
            ctx.ob("deallocate", w, pos is F(P), "freeing heap memory moves the position of the scratch area")
        else:
            ctx.ob("deallocate", w, False if outside else True if inside else None, "heap memory is not freed when " + showfacts(o.facts))
            if pos is not F(P):
                last = any(v and k.op == "eq" and (sub(*k.a) == sub(T("add", p, n), F(P)) or sub(*k.a) == sub(F(P), T("add", p, n))) for k, v in o.facts.items())
                ctx.ob("deallocate", w, True if last else (False if not any(v and k.op == "eq" for k, v in o.facts.items()) else None), "memory that is not the last handed out is given back when " + showfacts(o.facts))
                ctx.ob("deallocate", w, same(pos, p) or (last and same(pos, T("bin", "-", F(P), n))), "after giving back %s the position is %s" % (show(p), show(pos)))

def initial(ctx, f):
    w = site(f)
    B, S, P = fields(f, ctx)
    I, outs = ctx.run(f)
    n = IN(f.params[0]["n"])
    for o in outs:
        b, s, q = (I.read(o.st, T("lf", TH, x)) for x in (B, S, P))
        ctx.ob("initial", w, True if q is b else (False if q.op in ("padd", "null") else None), "the position starts at %s" % show(q))
        if s is n and b.op in ("mknew", "newarr"):
            a = [x for x in b.a if isinstance(x, T)]
            ctx.ob("initial", w, True if n in a else (False if a and all(x.op in ("int", "add", "sub", "bin", "in", "mul") for x in a) else None), "an area of %s bytes is recorded as %s bytes" % (", ".join(show(x) for x in a), show(s)))
        else: ctx.ob("initial", w, None, "size %s buffer %s" % (show(s), show(b)))

def rwctor(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn.startswith(AR + "::") else None)
    for o in outs:
        for x in f.klass.fields:
            t = ctx.prog.type(x.get("t"))
            if "arena &" in t or t.endswith("&"): continue
            v = I.read(o.st, T("lf", TH, x["n"]))
            if "char" in t or "position" in t:
                ctx.ob("rewind", w, True if v.op == "call" and v.a[0] == AR + "::position" else (False if v is NULL or v.op in ("int", "uninit") else None), "the position recorded is %s" % show(v))

def rwdtor(ctx, f):
    w = site(f)
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn.startswith(AR + "::") else None)
    for o in outs:
        rw = [e for e, _ in flat(o.eff) if e.name == AR + "::rewind"]
        ok = len(rw) == 1 and rw[0].args[0].op == "fld" and rw[0].args[1].op == "fld" and rw[0].args[1].a[0] is IN("*this")
        ctx.ob("rewind", w, ok if rw else (False if not o.eff else None), "rewinds %s" % [show(a) for e in rw for a in e.args])
    p = ctx.prog
    for g in [g for g in p.find(AR + "::rewind") + p.find(AR + "::position") if g.body is not None]:
        B, S, P = fields(g, ctx)
        I, outs = ctx.run(g)
        for o in outs:
            if g.name == "rewind":
                v = I.read(o.st, T("lf", TH, P))
                ctx.ob("rewind", site(g), v is IN(g.params[0]["n"]), "rewinding to a position moves to %s (when %s)" % (show(v), showfacts(o.facts)))
            else:
                v = I.rv(o.st, o.val)
                ctx.ob("rewind", site(g), v is F(P), "the position reported is " + show(v))

def nbytes(ctx, f):
    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn.startswith(AR + "::") else None)
    w = site(f)
    n = IN(f.params[-1]["n"])
    for o in outs:
        cs = [e for e, _ in flat(o.eff) if e.name == AR + "::" + f.name]
        if len(cs) != 1: ctx.ob("bytes", w, None, "%d requests" % len(cs)); continue
        a = cs[0].args[-1]
        ok = a.op == "mul" and n in a.a and any(x.op == "sizeof" for x in a.a) and len(a.a) == 2
        if ok:
            want = (f.klass.ta or "").strip("<> ").split("<")[0]
            got = [str(x.a[0]).split("<")[0] for x in a.a if x.op == "sizeof"][0]
            ok = got == want or None
        else: ok = False if a is n or a.op in ("add", "mul", "sizeof", "int") else None
        ctx.ob("bytes", w, ok, "%s elements are %s bytes" % (show(n), show(a)))
        if f.name == "deallocate": ctx.ob("bytes", w, IN(f.params[0]["n"]) in set(subterms(cs[0].args[1])), "gives back " + show(cs[0].args[1]))

def arena_classes(p):
    """classes that keep scratch memory"""
    if hasattr(p, "_arena"): return p._arena
    A = set()
    def direct(t): return "linear_alloc<" in t
    for c in p.classes:
        if direct(c.type) and not c.type.startswith("sdd::mem::linear_alloc"): A.add(c.id)
    for _ in range(5):
        n = len(A)
        for c in p.classes:
            if c.id in A: continue
            if any(x.get("cls") in A or direct(p.type(x.get("t"))) for x in c.fields or []) and not c.type.startswith("sdd::mem::") : A.add(c.id)
        if len(A) == n: break
    # references do not own
    p._arena = A
    return A

def owns(p, d, A):
    if d.get("ref"): return False
    t = p.type(d.get("t"))
    if t.endswith("*") or t.endswith("&"): return False
    return d.get("cls") in A or ("linear_alloc<" in t and "sdd::mem::linear_alloc<" != t[:len("sdd::mem::linear_alloc<")])

def scope(ctx):
    p = ctx.prog
    A = arena_classes(p)
    rid = {c.id for c in p.cls(RW)}
    n = 0
    for f in p.mine():
        if f.body is None: continue
        if not any(x.get("k") == "decl" and any(d.get("cls") in rid for d in x["d"]) for x in walk(f.body)): continue
        n += 1
        ctx.analysed(f)
        w = site(f)
        ctx.ob("scope", w, True)
        def block(stmts, live):
            live = list(live)
            for s in stmts:
                if not isinstance(s, dict): continue
                if s.get("k") == "decl":
                    for d in s["d"]:
                        if d.get("cls") in rid and not d.get("ref"):
                            ctx.ob("scope", w, not live, "'%s' keeps scratch memory and outlives the rewinder declared after it" % ", ".join(live))
                            live.append("\0")
                        elif owns(p, d, A) and "\0" not in live: live.append(d["n"])
                    live = [x for x in live if x != "\0"] if "\0" not in live else ["\0"] + [x for x in live if x != "\0" and False]
                for kk, v in s.items():
                    if isinstance(v, dict) and v.get("k") in ("block", "compound"): block(v.get("s", []), live)
                    elif isinstance(v, dict) and kk in ("b", "t", "e", "th", "el", "s") and v.get("k") in ("if", "for", "while", "rfor", "do", "decl", "try"): block([v], live)
                    elif isinstance(v, list) and kk in ("s",): block(v, live)
        block(f.body.get("s", [f.body]) if isinstance(f.body.get("s"), list) else [f.body], [])
        rt = f.rt
        ctx.ob("escape", w, not ("linear_alloc<" in rt or any(p.classes[a].type == rt for a in A)), "a container in scratch memory is returned from a function that rewinds it")
        grow = {"push_back", "emplace_back", "insert", "emplace", "add", "reserve", "operator[]", "resize"}
        outer = {x["v"]: x["n"] for x in f.params if (x.get("cls") in A or "linear_alloc<" in p.type(x["t"])) and p.type(x["t"]).endswith("&") and not p.type(x["t"]).startswith("const ")}
        for x in walk(f.body):
            if x.get("k") == "call" and x.get("f") is not None and p.fns[x["f"]].name in grow:
                o = x.get("o") or x.get("obj")
                v = base(o)
                if v in outer: ctx.ob("escape", w, False, "'%s' belongs to the caller and grows in memory that is given back on return" % outer[v])
    if not n: raise Vanished("no rewinder")

def base(o):
    while isinstance(o, dict):
        if o.get("k") in ("ref", "var", "dref") and o.get("v") is not None: return o["v"]
        o = o.get("b") or o.get("e") or o.get("o")
    return None

def coverage(ctx):
    """from the evaluation of each cached diagram operation, scratch memory is only reached under a rewinder"""
    p = ctx.prog
    A = arena_classes(p)
    rid = {c.id for c in p.cls(RW)}
    has_rw, uses, edges = set(), {}, {}
    for f in p.fns:
        if f.body is None: continue
        es = set()
        for x in walk([f.body, [i.get("e") for i in (f.inits or [])]]):
            if x.get("k") == "decl":
                for d in x["d"]:
                    if d.get("cls") in rid: has_rw.add(f.id)
                    elif owns(p, d, A) and d.get("e") is not None and d["e"].get("k") == "ctor" and f.mine: uses.setdefault(f.id, d["n"])
            if x.get("f") is not None and isinstance(x["f"], int): es.add(x["f"])
            if x.get("k") == "lambda":
                for i in x.get("ops", x.get("f") if isinstance(x.get("f"), list) else []) or []: es.add(i)
        edges[f.id] = es
    roots = [f for c in p.classes if c.qn in ("sdd::dd::difference_op", "sdd::dd::_sum_op", "sdd::dd::sum_op_impl", "sdd::dd::nary_op", "sdd::dd::sum_op", "sdd::dd::intersection_op") for f in p.methods_of(c) if f.name == "operator()" and f.body is not None]
    if not roots: ctx.ob("covered", "dd operations", None, "no operation found"); return
    for r in roots:
        w = site(r)
        seen, todo, bad = set(), [(r.id, ())], None
        while todo:
            i, pth = todo.pop()
            if i in seen: continue
            seen.add(i)
            if i in has_rw: continue
            if p.fns[i].klass is not None and p.fns[i].klass.qn == "sdd::mem::cache" : continue
            if i in uses and p.fns[i].rel.startswith("sdd/dd/"): bad = (p.fns[i], uses[i]); break
            for j in edges.get(i, ()): todo.append((j, pth + (i,)))
        ctx.analysed(r)
        ctx.ob("covered", w, bad is None, "" if bad is None else "%s keeps scratch memory in '%s' and no rewinder is on the way from the operation" % (site(bad[0]), bad[1]))
