"""C03: equality and hash of every stored or cached object agree and read all of it."""
from common import *

# what distinguishes two objects of each kind ("[]" stands for the elements stored after the object)
DIST = {
 "sdd::mem::ptr": ["x_"], "sdd::mem::unique": ["data_"], "sdd::mem::cache_entry": ["operation"], "sdd::mem::variant": ["index", "storage"],
 "sdd::SDD": ["ptr_"], "sdd::homomorphism": ["ptr_"], "sdd::values::flat_set": ["ptr_"], "sdd::values::bitset": ["content_"],
 "sdd::arc": ["valuation_", "successor_"], "sdd::node": ["variable_", "size_", "[]"],
 "sdd::order_identifier": ["artificial_", "user_"], "sdd::order": ["head_"],
 "sdd::dd::nary_op": ["operands", "size"], "sdd::dd::difference_op": ["left", "right"],
 "sdd::hom::cached_homomorphism": ["ord", "hom", "sdd"],
 "sdd::hom::_local": ["target", "h"], "sdd::hom::_fixpoint": ["h"], "sdd::hom::_saturation_fixpoint": ["variable", "F", "G_size", "L", "[]"],
 "sdd::hom::_intersection": ["operands"], "sdd::hom::_saturation_intersection": ["variable", "F", "G", "L"], "sdd::hom::_sum": ["size", "[]"],
 "sdd::hom::_saturation_sum": ["variable", "F", "G", "L"], "sdd::hom::_composition": ["left", "right"], "sdd::hom::_cons": ["o", "valuation", "next"],
 "sdd::hom::_constant": ["operand"], "sdd::hom::_function": ["target", "fun_ptr"], "sdd::hom::_if_then_else": ["h_if", "h_then", "h_else"],
 "sdd::hom::_inductive": ["hom_ptr"],
}

def check(ctx):
    ctx.rule("equality-total", "two objects compare equal only if every component that distinguishes them is compared")
    ctx.rule("equality-symmetric", "equality compares the same component of both objects")
    ctx.rule("equality-reflexive", "two objects compare different only because a component differs")
    ctx.rule("hash-congruent", "the hash reads only what equality compares, so equal objects hash equally")
    ctx.rule("same-dynamic-type", "two user callbacks compare equal only if they have the same type, checked before one is viewed as the other")
    ctx.rule("hash-is-of-stored", "the hash under which an object is stored is the hash of the object itself")
    p = ctx.prog
    n = 0
    for qn in DIST:
        for c in p.cls(qn):
            eqs = [g for g in p.fns if g.body is not None and g.name == "operator==" and len(g.params or []) == 2 and g.params[0].get("cls") == c.id and g.params[1].get("cls") == c.id]
            eqs += [g for g in p.methods_of(c) if g.body is not None and g.name == "operator==" and len(g.params) == 1 and g.params[0].get("cls") == c.id]
            hs = [g for g in p.fns if g.body is not None and g.qn.startswith("std::hash") and g.name == "operator()" and g.params and g.params[0].get("cls") == c.id]
            for g in eqs[:1]:
                n += 1
                def one(g):
                    cmpd = eq(ctx, c, qn, g)
                    for h in hs[:1]: ctx.each("hash-congruent", [h], lambda h: hashed(ctx, c, qn, h, cmpd))
                ctx.each("equality-total", [g], one)
    ctx.part("callbacks", lambda: callbacks(ctx))
    if n < 20: raise Vanished("only %d equalities found" % n)

def policy(me):
    def pol(g):
        if g.name == "operator==": return "prim"
        if g.qn.startswith("std::hash") and g.name == "operator()": return "prim"
        if g.qn.startswith("sdd::mem::") and (g.qn.startswith("sdd::mem::binary_apply_visitor") or g.qn.startswith("sdd::mem::apply_visitor") or g.qn.startswith("sdd::mem::apply_binary")): return "prim"
        if g.qn.startswith("sdd::hom::") and g.name == "hash" : return "prim"
        return None
    return pol

def sides(t, a, b):
    s = set()
    for x in subterms(t):
        if x is IN(a) or (x.op == "lp" and x.a[0] == a): s.add("a")
        if x is IN(b) or (x.op == "lp" and x.a[0] == b): s.add("b")
    return s
def subst(t, names):
    """renames the roots to X"""
    if isinstance(t, tuple): return tuple(subst(x, names) for x in t)
    if not isinstance(t, T): return t
    if t.op == "lp" and t.a[0] in names: return T("lp", "X")
    for n in names:
        if t is IN(n): return IN("X")
    return T(t.op, *[subst(x, names) for x in t.a])

EQFN = ("operator==",)
def atom(t):
    """(left, right, kind) of a comparison, or None"""
    if t.op == "eq" and len(t.a) == 2: return t.a[0], t.a[1], "eq"
    if t.op == "call" and len(t.a) == 3 and t.a[0].split("::")[-1].startswith("operator=="): return t.a[1], t.a[2], "eq"
    if t.op in ("std", "call") and t.a and str(t.a[0]).endswith("equal") and len(t.a) >= 4: return T("rng", t.a[1], t.a[2]), t.a[3], "range"
    if t.op == "equal" and len(t.a) >= 3: return T("rng", t.a[0], t.a[1]), t.a[2], "range"
    if t.op in ("call", "callv") and any(k in str(t.a[0]) for k in ("apply_visitor", "binary")): return None
    return None

class Cmp:
    def __init__(self): self.paths = []   # one set of compared components (terms over X) per path that can answer true

def eq(ctx, c, qn, g):
    w = site(g)
    I, outs = ctx.run(g, policy=policy(g))
    if g.kind == "method": a, b = "*this", g.params[0]["n"]
    else: a, b = g.params[0]["n"], g.params[1]["n"]
    names = {a, b}
    R = Cmp()
    def sym(t, kind, pos):
        """component compared by an atom; reports a comparison of two different components"""
        at = atom(t)
        if at is None: return None
        l, r, k = at
        sl, sr = sides(l, a, b), sides(r, a, b)
        if sl == {"a"} and sr == {"b"} or sl == {"b"} and sr == {"a"}:
            if k == "range":
                first = subst(l.a[0], names)
                same = first is subst(r, names)
                if not same: ctx.ob("equality-symmetric", w, False, "a range from %s is compared with one from %s" % (show(l.a[0]), show(r))); return None
                n = l.a[1]
                if len(t.a) - (0 if t.op == "equal" else 1) >= 4 and sides(t.a[-1], a, b) != sides(n, a, b) and t.a[-1].op in ("padd", "it"):
                    return T("range4", first, subst(n, names))
                return T("range", first, subst(n, names))
            x, y = subst(l, names), subst(r, names)
            if x is y: return x
            ctx.ob("equality-symmetric", w, False if kind == "true" else None, "%s is compared with %s" % (show(l), show(r)))
        return None
    ctx.ob("equality-symmetric", w, True)
    for o in outs:
        if o.kind != "ret": continue
        r = I.rv(o.st, o.val)
        loops = [e for e in o.eff if isinstance(e, LoopRec)]
        pos = [k for k, v in o.facts.items() if v]
        neg = [k for k, v in o.facts.items() if not v]
        while r.op == "not":
            r = r.a[0]; neg, pos = neg, pos
            if r.op not in ("bool",): break
        const = r.a[0] if r.op == "bool" else None
        if const is False or (const is not None and not const):
            # must be justified by a difference
            why = [k for k in neg if diff(k, a, b)] + [k for k in pos if k.op in ("lt", "le", "ne") and sides(k, a, b) == {"a", "b"}]
            one_sided = [k for k in neg + pos if sides(k, a, b) in ({"a"}, {"b"})]
            if why: ctx.ob("equality-reflexive", w, True)
            elif contrad(pos, neg, a, b, names): ctx.ob("equality-reflexive", w, True)
            elif loops or one_sided or neg or pos: ctx.ob("equality-reflexive", w, None, "answers false when " + showfacts(o.facts))
            else: ctx.ob("equality-reflexive", w, not DIST[qn], "answers false without comparing anything")
            continue
        comps = set()
        for k in pos + ([r] if const is None else []):
            x = sym(k, "true", o)
            if x is not None: comps.add(x)
        pairs = bothnull(pos + ([r] if const is None else []), names, a, b)
        comps |= pairs
        for L in loops:
            for it in L.iters:
                for k, v in it.facts.items():
                    at = atom(k)
                    if at is not None and sides(at[0], a, b) | sides(at[1], a, b) == {"a", "b"}: comps.add(T("loop", subst(at[0], names)))
        opaque = [k for k in pos + ([r] if const is None else []) if atom(k) is None and sides(k, a, b) == {"a", "b"}]
        R.paths.append((comps, opaque))
        if const is None and not sides(r, a, b): ctx.ob("equality-total", w, None, "answers " + show(r)); continue
        if qn == "sdd::order" and not bothnull(pos + ([r] if const is None else []), names, a, b):
            for part in ("position_", "identifier_", "nested_", "next_"):
                got = any(y.op in ("fld", "lf") and y.a[1] == part for x in comps for y in subterms(x))
                ctx.ob("equality-total", "%s: %s" % (w, part), True if got else None if opaque or loops or not any("head_" in show(x) for x in comps) else False, "two orders whose first levels differ in '%s' can compare equal" % part)
        for x in comps:
            if x.op in ("range", "range4") and trailing(x.a[0]):
                e = x.a[1]
                ln = e.a[1] if e.op == "padd" and e.a[0] is x.a[0] else None
                ctx.ob("equality-total", "%s: elements" % w, (False if e.op in ("psub", "padd") else None) if ln is None else True if ln.op == "fld" else False if ln.op in ("add", "sub", "int") else None, "the elements up to %s are compared" % show(e))
        for fdn in DIST[qn]:
            ok = covered(fdn, comps, c)
            if not ok and opaque and any(mentions(fdn, k) or (IN(a) in k.a and IN(b) in k.a) for k in opaque): ok = None if qn != "sdd::mem::variant" else True
            if not ok and loops: ok = None
            if not ok and fdn != "[]" and fdn not in [f["n"] for f in c.fields]: ok = None
            ctx.ob("equality-total", "%s: %s" % (w, fdn), ok, "two objects that differ in '%s' can compare equal (when %s)" % (fdn, showfacts(o.facts)))
    return R

def contrad(pos, neg, a, b, names):
    """one of the two is empty and the other is not"""
    e = {subst(k, names) for k in pos if sides(k, a, b) in ({"a"}, {"b"})}
    f = {subst(k, names) for k in neg if sides(k, a, b) in ({"a"}, {"b"})}
    return bool(e & f)
def bothnull(pos, names, a, b):
    """the same one-sided fact holds of both: lhs.p == null and rhs.p == null"""
    by = {}
    for k in pos:
        s = sides(k, a, b)
        if len(s) == 1 and k.op == "eq" and k.a[1] is NULL: by.setdefault(subst(k.a[0], names), set()).update(s)
    return {t for t, s in by.items() if s == {"a", "b"}}
def diff(k, a, b): return sides(k, a, b) == {"a", "b"}

def path(t):
    """names on the way from the root: fields, '*' for a dereference"""
    r = []
    while True:
        if t.op in ("fld", "lf"): r.insert(0, t.a[1]); t = t.a[0]
        elif t.op in ("deref", "ld") and t.a and isinstance(t.a[0], T): 
            r.insert(0, "*"); t = t.a[0]
        elif t.op == "addr": 
            t = t.a[0]; r = ["&"] + r
        else: break
    return t, r

def trailing(t): return t.op == "padd" and t.a[0].op == "addr" and t.a[0].a[0] is T("lp", "X")
def covered(fdn, comps, c):
    for x in comps:
        if fdn == "[]":
            if x.op in ("range", "range4") and trailing(x.a[0]): return True
            if x.op == "loop" and any(trailing(y) for y in subterms(x)): return True
        else:
            if mentions(fdn, x.a[0] if x.op == "range" else x): return True
    return False
def mentions(fdn, t):
    return any(y.op in ("fld", "lf") and y.a[1] == fdn and (y.a[0] is IN("X") or y.a[0].op in ("lp", "in", "ld")) for y in subterms(t))

def leaves(I, t, root, out, seen):
    """maximal component terms of the argument read by t"""
    if not isinstance(t, T) or t in seen: return
    seen.add(t)
    if t.op == "phi" and t in I.phis:
        ph = I.phis[t]
        leaves(I, ph["init"], root, out, seen)
        for v, f in ph["back"]:
            leaves(I, v, root, out, seen)
            for k in f: leaves(I, k, root, out, seen)
        return
    if t.op == "elem" or (t.op in ("fld", "deref", "lf", "addr", "lp", "in", "arr", "le", "ld") and any(x is IN(root) or (x.op == "lp" and x.a[0] == root) for x in subterms(t))):
        out.add(t); return
    for x in t.a: leaves(I, x, root, out, seen)

def hashed(ctx, c, qn, h, cmpd):
    w = site(h) + " of " + qn.replace("sdd::", "")
    I, outs = ctx.run(h, policy=policy(h))
    a = h.params[0]["n"]
    if qn == "sdd::order": return orderhash(ctx, w, I, outs, a, cmpd)
    for o in outs:
        if o.kind != "ret": continue
        out, seen = set(), set()
        leaves(I, I.rv(o.st, o.val), a, out, seen)
        for k in o.facts: leaves(I, k, a, out, seen)
        for t in out:
            x = subst(t, {a})
            if x.op == "arr" or x.op == "elem" or x.op == "it": x = x.a[0]
            for comps, opaque in cmpd.paths:
                ok = part_of(x, comps)
                if not ok and opaque: ok = None if qn != "sdd::mem::variant" else True
                if not ok and any(y.op == "loop" for y in comps): ok = None
                if not ok and DIST[qn] == ["ptr_"] and x is T("fld", IN("X"), "ptr_"): ok = None   # a handle is its place: unification makes equal contents share it
                ctx.ob("hash-congruent", w, ok, "the hash depends on %s, which equality does not compare: equal objects may hash differently" % show(t))
        if not out: ctx.ob("hash-congruent", w, True, "constant")

def part_of(x, comps):
    """x is a function of the compared components"""
    if x in comps: return True
    if x.op == "arr":
        if any(y.op in ("range", "range4") and (y.a[0] is x.a[0]) for y in comps): return True
        x = x.a[0]
    if trailing(x) and any(y.op in ("range", "range4") and y.a[0] is x for y in comps): return True
    if any(y.op in ("range", "range4") and y.a[0] is x for y in comps): return True
    if x.op in ("fld", "elem", "le", "size", "it"): return part_of(x.a[0], comps)
    if x.op == "lf": return part_of(x.a[0], comps) or part_of(T("fld", val(x.a[0]), x.a[1]), comps)
    if x.op == "deref" and x.a[0] in comps: return True
    if x.op == "addr": return False
    return False
def val(l):
    if l.op == "lp": return IN(l.a[0])
    if l.op == "lf": return T("fld", val(l.a[0]), l.a[1])
    return l

def orderhash(ctx, w, I, outs, a, cmpd):
    """order: equality is structural (position, identifier, nested, next of the first level), so the hash may only read those"""
    OKF = {"position_", "identifier_", "nested_", "next_", "user_", "artificial_", "variable_"}
    for o in outs:
        if o.kind != "ret": continue
        out, seen = set(), set()
        leaves(I, I.rv(o.st, o.val), a, out, seen)
        for t in out:
            r, ps = path(t)
            addrs = ps and ps[0] == "&"
            names = [x for x in ps if x not in ("*", "&")]
            ok = not addrs and names[:1] == ["head_"] and len(names) >= 2 and names[1] in OKF and names[1] not in ("nested_", "next_")
            if not ok and not (ps and names and (names[-1] in ("head_", "nodes_ptr_", "id_to_node_ptr_", "nested_", "next_") or addrs)): ok = None
            ctx.ob("hash-congruent", w, ok, "the hash depends on %s: two equal orders stored apart hash differently" % show(t))
        if not out: ctx.ob("hash-congruent", w, True, "constant")

def callbacks(ctx):
    p = ctx.prog
    n = 0
    for qn in ("sdd::hom::function_derived", "sdd::hom::inductive_derived"):
        for c in p.cls(qn):
            for g in [g for g in p.methods_of(c) if g.body is not None and g.name in ("operator==", "hash")]:
                def one(g):
                    nonlocal n
                    n += 1
                    w = site(g)
                    I, outs = ctx.run(g, policy=lambda k: "prim" if k.id != g.id and (k.name == "operator==" or k.qn.startswith("std::hash")) else None)
                    if g.name == "hash":
                        for o in outs:
                            out, seen = set(), set()
                            leaves(I, I.rv(o.st, o.val), "*this", out, seen)
                            for t in out:
                                rt, ps = path(t)
                                if rt.op == "lp" and rt.a[0] == "*this": pass
                                bad = "&" in ps or t is IN("*this") or t is IN("this")
                                ctx.ob("hash-congruent", w, not bad, "the hash depends on the address of the callback: equal callbacks hash differently")
                            if not out: ctx.ob("hash-congruent", w, True)
                        return
                    b = g.params[0]["n"]
                    for o in outs:
                        r = I.rv(o.st, o.val)
                        if o.kind != "ret" or (r.op == "bool" and not r.a[0]):
                            continue
                        ty = [k for k, v in o.facts.items() if v and k.op == "eq" and {k.a[0].op, k.a[1].op} == {"typeid"}]
                        dyn = any("dynamic" in str(k) for k in list(o.facts) + [r])
                        both = [k for k in ty if sides(k.a[0], "*this", b) | sides(k.a[1], "*this", b) == {"a", "b"}]
                        static = [k for k in ty if k not in both and (sides(k, "*this", b) == {"b"})]
                        ctx.ob("same-dynamic-type", w, True if both or static else (None if dyn else False), "callbacks of different types are compared as if they had the same type")
                        ats = [k for k, v in o.facts.items() if v and k not in ty] + ([r] if r.op != "bool" else [])
                        good = [k for k in ats if atom(k) is not None and subst(atom(k)[0], {"*this", b}) is subst(atom(k)[1], {"*this", b}) and sides(k, "*this", b) == {"a", "b"}]
                        ctx.ob("equality-total", w, bool(good) if ats or r.op == "bool" else None, "callbacks compare equal without comparing the user's objects")
                ctx.each("same-dynamic-type", [g], one)
    if n < 4: raise Vanished("callback equality")
