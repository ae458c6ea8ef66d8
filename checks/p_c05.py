"""C05: value sets behave as mathematical sets. One arbitrary element q is followed: membership of q in each set is a boolean."""
from common import *
from itertools import product
FS, BS = "sdd::values::flat_set", "sdd::values::bitset"
WANT = {"sum": lambda l, r: l or r, "intersection": lambda l, r: l and r, "difference": lambda l, r: l and not r}
STD = {"std::set_union": WANT["sum"], "std::set_intersection": WANT["intersection"], "std::set_difference": WANT["difference"], "std::set_symmetric_difference": lambda l, r: l != r}

class Unknown(Exception): pass
class Env:
    """membership of the followed element: env maps base sets to booleans; e: is it the argument of the operation"""
    def __init__(self, base, e, x): self.base, self.e, self.x = base, e, x
    def key(self, t):
        if t is self.x: return self.e
        raise Unknown("element " + show(t)[:60])
    def has(self, t):
        if t in self.base: return self.base[t]
        o, a = t.op, t.a
        if o == "ext": return self.has(a[0]) or self.key(a[1])
        if o == "mut" and a[0] == "erase": return self.has(a[1]) and not self.key(a[2])
        if o == "mut" and a[0] in ("set", "reset") and len(a) >= 3:
            on = a[0] == "set" and (len(a) < 4 or a[3] in (True, TRUE) or show(a[3]) in ("True", "true", "1"))
            return (self.has(a[1]) or self.key(a[2])) if on else (self.has(a[1]) and not self.key(a[2]))
        if o == "setop": return STD[a[0]](self.has(a[1]), self.has(a[2]))
        if o == "coll" and not a: return False
        if o == "bit":
            if a[0] == "~": return not self.has(a[1])
            if a[0] in "|&^" and len(a) == 3:
                x, y = self.has(a[1]), self.has(a[2])
                return (x or y) if a[0] == "|" else (x and y) if a[0] == "&" else x != y
        if o == "call":
            if a[0] in (FS + "::unify", FS + "::create") and len(a) == 2: return self.has(a[1])
            if a[0] == FS + "::empty_set": return False
        if o in ("addr", "tmp", "deref") : return self.has(a[0])
        if o == "fld" and a[1] in ("data_", "x_", "ptr_", "content_"): return self.has(a[0])
        if o == "obj":
            fs = dict((k, v) for k, v in a[1])
            for k in ("x_", "ptr_", "content_"):
                if k in fs: return self.has(fs[k])
        if o == "ctor":
            if len(a) == 1: return False
            if len(a) == 2 and a[0] == "std::bitset" and a[1] is INT(0): return False
            if len(a) == 2: return self.has(a[1])
        raise Unknown(show(t)[:100])
    def possible(self, facts):
        """False: cannot happen; True: can; None: a condition is not understood"""
        sure = True
        for c, b in facts.items():
            try:
                if c.op == "empty" and len(c.a) == 1:
                    if b and self.has(c.a[0]): return False
                elif c.op == "contains":
                    if c.a[1] is self.x:
                        if self.e and self.has(c.a[0]) != b: return False
                    else: sure = None
                elif c.op in ("none",):
                    if b and self.has(c.a[0]): return False
                elif c.op == "eq":
                    if b and self.has(c.a[0]) != self.has(c.a[1]): return False
                else: sure = None
            except Unknown: sure = None
        return sure

def policy(g): return "prim" if g.qn in (FS + "::unify", FS + "::empty_set") else None
def D(owner): return T("fld", T("deref", T("fld", T("fld", owner, "ptr_"), "x_")), "data_")

def check(ctx):
    ctx.rule("algebra", "an element is in the union / intersection / difference of two sets exactly when the set operation of that name says so, and the operands are not written")
    ctx.rule("insert", "after an insertion the set has exactly its elements and the new one, and whether it is new is reported")
    ctx.rule("erase", "after a removal the set has exactly its other elements")
    ctx.rule("construct", "a set built from elements or from another set has exactly these elements")
    ctx.rule("query", "size, emptiness, membership and iteration are those of the elements of this very set")
    p = ctx.prog
    fns = {n: [f for f in p.find("sdd::values::" + n) if f.body is not None and len(f.params) == 2] for n in WANT}
    for n, fs in fns.items(): ctx.each("algebra", fs, lambda f: algebra(ctx, f, WANT[n]))
    for q in (FS, BS):
        for c in p.cls(q):
            if not c.fields: continue
            for f in p.methods_of(c):
                if f.body is None: continue
                if f.name == "insert" and len(f.params) == 1: ctx.each("insert", [f], lambda f: update(ctx, f, "insert", lambda d, e: d or e))
                elif f.name == "erase" and len(f.params) == 1: ctx.each("erase", [f], lambda f: update(ctx, f, "erase", lambda d, e: d and not e))
                elif f.kind == "ctor": ctx.each("construct", [f], lambda f: construct(ctx, f))
                elif f.kind == "method" and f.name in QUERY[q]: ctx.each("query", [f], lambda f: query(ctx, f, q))
    ctx.need("algebra", 6); ctx.need("insert", 2); ctx.need("query", 10)

def where(f): return "%s %s" % (site(f), (f.klass.ta if f.klass is not None else f.ta) or "")
def base(I, st, q, owner):
    """the term(s) that stand for the elements of a set object"""
    return [T("fld", owner, "content_")] if q == BS else [owner]

class Sets(Interp):
    """set algorithms of the standard library write their result through an insert iterator"""
    def std(self, fn, obj, vs, st, fr, line):
        if fn.qn in ("std::inserter", "std::back_inserter") and isinstance(vs[0], LV): return [(st, T("ins", vs[0].loc))]
        a = [self.rv(st, v) for v in vs]
        to = [x for x in a if isinstance(x, T) and x.op == "ins"]
        if to:
            l = to[0].a[0]
            now = self.read(st, l)
            its = a[:4]
            ok = fn.qn in STD and len(a) == 5 and a[4] is to[0] and now.op == "coll" and not now.a and all(x.op == "it" for x in its) \
                and its[0].a[0] is its[1].a[0] and its[2].a[0] is its[3].a[0] and [show(x.a[1]) if isinstance(x.a[1], T) else str(x.a[1]) for x in its] == ["b", "e", "b", "e"]
            self.write(st, l, T("setop", fn.qn, its[0].a[0], its[2].a[0]) if ok else T("call", "unknown set", now))
            return [(st, T("call", fn.qn, *a))]
        return super().std(fn, obj, vs, st, fr, line)

def algebra(ctx, f, want):
    w = where(f)
    q = BS if "bitset" in f.rt else FS if "flat_set" in f.rt else None
    if q is None: return
    I = Sets(ctx.prog, policy=policy)
    ctx.analysed(f)
    l, r = IN(f.params[0]["n"]), IN(f.params[1]["n"])
    for o in I.run(f):
        if o.kind != "ret": ctx.ob("algebra", w, None, "raises"); continue
        ctx.ob("algebra", w + ": operands", not any(e.kind == "write" and any(x is not None and any(y in (l, r) for y in subterms(x)) for x in e.locs) for e, _ in flat(o.eff)), "an operand is written")
        v = I.rv(o.st, o.val)
        for x, y in product((False, True), repeat=2):
            env = Env({l: x, r: y}, False, None)
            try:
                ok = env.possible(o.st.facts)
                if ok is False: continue
                good = env.has(v) == want(x, y)
                ctx.ob("algebra", w, True if good else None if ok is None else False, "an element %s the first and %s the second operand is %s the result%s" % ("in" if x else "not in", "in" if y else "not in", "in" if env.has(v) else "not in", "" if not o.st.facts else " if " + showfacts(o.st.facts)[:200]))
            except Unknown as u: ctx.ob("algebra", w, None, "not understood: " + str(u))

TH = IN("*this")
def update(ctx, f, rule, want):
    w = where(f)
    q = f.klass.qn
    I = Sets(ctx.prog, policy=policy)
    ctx.analysed(f)
    x = IN(f.params[0]["n"])
    fld = "content_" if q == BS else "ptr_"
    for o in I.run(f):
        if o.kind != "ret": ctx.ob(rule, w, None, "raises"); continue
        now = I.read(o.st, T("lf", T("ld", IN("this")), fld))
        for d, e in product((False, True), repeat=2):
            env = Env({TH: d, T("fld", TH, fld): d}, e, x)
            try:
                ok = env.possible(o.st.facts)
                if ok is False: continue
                good = env.has(now) == want(d, e)
                ctx.ob(rule, w, True if good else None if ok is None else False, "the element%s, which %s in the set, is %s it afterwards%s" % (" given" if e else " other than the one given", "was" if d else "was not", "in" if env.has(now) else "not in", "" if not o.st.facts else " if " + showfacts(o.st.facts)[:200]))
            except Unknown as u: ctx.ob(rule, w, None, "not understood: " + str(u))
        if rule == "insert" and q == FS and isinstance(o.val, T) and o.val.op == "ctor" and len(o.val.a) == 2 and o.val.a[1].op == "pair":
            new = o.val.a[1].a[1]
            b = None
            for c, k in o.st.facts.items():
                if c.op == "contains" and c.a[1] is x and c.a[0] is D(TH): b = not k
            v = True if new is TRUE else False if new is FALSE else None
            if new.op == "not" and new.a[0].op == "contains" and new.a[0] in o.st.facts: v = not o.st.facts[new.a[0]]
            if new.op == "contains" and new in o.st.facts: v = o.st.facts[new]
            ctx.ob(rule, w + ": reported", None if b is None or v is None else v == b, "the insertion reports the opposite of what happened")

def construct(ctx, f):
    q = f.klass.qn
    w = where(f) + " (%s)" % ", ".join(ctx.prog.type(x.get("t")) for x in f.params)
    I = Sets(ctx.prog, policy=policy)
    ctx.analysed(f)
    fld = "content_" if q == BS else "ptr_"
    if len(f.params) > 1 or (q == BS and any("initializer_list" in ctx.prog.type(x.get("t")) for x in f.params)): return
    for o in I.run(f):
        if o.kind != "ret": continue
        v = I.read(o.st, T("lf", T("ld", IN("this")), fld))
        a = IN(f.params[0]["n"]) if f.params and f.params[0].get("n") else T("in", "arg0")
        for d in (False, True) if f.params else (False,):
            env = Env({a: d, IN("arg0"): d}, False, None)
            try:
                ok = env.possible(o.st.facts)
                if ok is False: continue
                good = env.has(v) == d
                ctx.ob("construct", w, True if good else None if ok is None else False, "an element %s what the set is built from is %s it" % ("in" if d else "not in", "in" if env.has(v) else "not in"))
            except Unknown as u: ctx.ob("construct", w, None, "not understood: " + str(u))

d_ = lambda: D(TH)
QUERY = {FS: {"begin": ("it", "b"), "cbegin": ("it", "b"), "end": ("it", "e"), "cend": ("it", "e"), "rbegin": ("rit", "b"), "crbegin": ("rit", "b"), "rend": ("rit", "e"), "crend": ("rit", "e"),
              "size": ("size",), "empty": ("empty",), "count": ("count",), "find": ("it", "key"), "lower_bound": ("it", "lb"), "upper_bound": ("it", "ub")},
         BS: {"size": ("count",), "empty": ("none",), "test": ("test",), "content": ("self",)}}
def query(ctx, f, q):
    w = where(f) + "::" + f.name
    I = Sets(ctx.prog, policy=policy)
    ctx.analysed(f)
    set_ = D(TH) if q == FS else T("fld", TH, "content_")
    x = show(IN(f.params[0]["n"])) if f.params else None
    want = QUERY[q][f.name]
    for o in I.run(f):
        v = I.rv(o.st, o.val) if o.kind == "ret" else None
        if v is None or o.st.facts: ctx.ob("query", w, None, "not a plain query"); continue
        s = show(v)
        if want[0] == "it": exp = [show(T("it", set_, "X")).replace("X", want[1] if want[1] in ("b", "e") else "%s(%s)" % (want[1], x))]
        elif want[0] == "rit": exp = [show(T("it", T("rev", set_), "X")).replace("X", want[1])]
        elif want[0] == "self": exp = [show(set_)]
        else: exp = ["%s(%s)" % (want[0], ", ".join([show(set_)] + ([x] if x else [])))]
        if s in exp: ctx.ob("query", w, True); continue
        # a definite answer to another question about this set
        known = v.op in ("it", "size", "empty", "count", "none", "test", "any", "all") and any(y is set_ for y in subterms(v)) or v in (TRUE, FALSE) or v.op == "int"
        other = v.op == "not" and v.a[0].op in ("empty", "none")
        ctx.ob("query", w, False if (known and not alt(v, f.name)) or other else None, "returns %s, not %s" % (s[:120], exp[0][:120]))
def alt(v, n):
    """other ways to say the same thing"""
    s = show(v)
    return (n == "empty" and v.op not in ("empty", "none", "it")) or (v.op == "it" and not any(k in s for k in (", b)", ", e)", "key(", "lb(", "ub("))) or (n == "count" and v.op != "it")
