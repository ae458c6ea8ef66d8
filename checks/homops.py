"""Operations as objects of the one-point domain: their operands are the operations they are built from; of a collection of
operands one arbitrary (main) operand is followed and the others come in any number and order."""
from homdd import *
from ddcases import *

MAIN, OTHER = T("hm", "main"), T("hm", "other")
ORDER = T("ord")
def HOMS(): return T("bag", "homs", ((T("#", -1), MAIN),), True)
ISHOM = lambda t: strip(t) == "sdd::homomorphism"
def kind_of(t):
    s = t.replace("const ", "")
    if ISHOM(t): return "hom"
    if s.startswith("boost::optional<sdd::homomorphism<") or s.startswith("std::optional<sdd::homomorphism<"): return "opt"
    if "<sdd::homomorphism<" in s and any(s.startswith(x) for x in ("boost::container::", "std::vector", "std::set", "std::list", "std::deque")): return "set"
    if s.startswith("std::unique_ptr<") : return "fun"
    if strip(t) == "sdd::SDD": return "sdd"
    return None

class Ops(Hom):
    """named results: the argument of each application is told apart"""
    def result(self, st, s_, x): return T("set", s_, "?", self.fresh(st)) if s_ != E_ else SET(E_, "?", OT)
    def record(self, st, h, o, x, r):
        a = self.apps(st)
        if h is OTHER: n = T("ap", h, o, T("set", sym(x), "?", OT), T("set", sym(r), "?", OT))
        else: n = T("ap", h, o, x, r)
        if n not in a: st.store[APPS] = T("apps", *sorted(a + (n,), key=lambda t: repr(self.erase(t, self.em))))
    def app(self, st, h, o, x):
        if h is OTHER:
            out = []
            for s_ in ((E_, O_, I_) if sym(x) != E_ else (E_,)):
                s2 = st.copy(); r = self.result(s2, s_, x); self.record(s2, h, o, x, r); out.append((s2, r))
            return out
        if sym(x) == E_:
            r = SET(E_, "?", OT); self.record(st, h, o, x, r); return [(st, r)]
        return super().app(st, h, o, x)
    def trailing(self, cls):
        return any(f.name == "begin" and "homomorphism<" in str(f.rt) and str(f.rt).rstrip().endswith("*") for f in self.p.by_cls.get(cls.id, []))
    def view(self, st, c):
        if c.op == "hobj": return HOMS()
        if c.op == "upd" and c.a[0].op == "hobj": return HOMS()
        return super().view(st, c)
    def phantoms(self, st, b):
        if b.a[0] == "homs": return [OTHER]
        return super().phantoms(st, b)
    def other_items(self, st, b):
        if b.a[0] == "homs": return [OTHER]
        return super().other_items(st, b)
    def step(self, st, cl, rem, b):
        if b.a[0] != "homs": return super().step(st, cl, rem, b)
        r = [(st.copy(), T("ait", cl, e, tuple(x for x in rem if x is not e))) for e in rem]
        r.append((st.copy(), T("ait", cl, T("ph", OTHER), rem)))
        if not rem: r.append((st.copy(), T("ait", self.endof(cl), END, ())))
        return r
    def field(self, v, f):
        if v.op == "hobj": return dict(v.a[0]).get(f, T("fld", v, f))
        return super().field(v, f)
    def hcall(self, fn, obj, vs, st, fr, line):
        n, q = fn.name, fn.qn
        if obj is not None and fn.klass is not None and fn.klass.qn in ("boost::optional", "std::optional", "boost::optional_detail::optional_base"):
            o = unm(self.rv(st, obj))
            if o.op == "opt":
                if n in ("(conv)", "is_initialized", "has_value"): return [(st, T("in", "has", o.a[0]))]
                if n == "operator!": return [(st, T("not", T("in", "has", o.a[0])))]
                if n in ("operator*", "get", "value"): return [(st, LV(T("tmp", o.a[0])))]
                if n == "operator->": return [(st, T("addr", T("tmp", o.a[0])))]
        if obj is not None and n in ("begin", "cbegin", "end", "cend") and not vs and fr is not None:
            o = unm(self.rv(st, obj))
            if o.op == "hobj" or (o.op == "upd" and o.a[0].op == "hobj") or (o.op == "bag" and o.a[0] == "homs"):
                b = T("tmp", HOMS())
                return self.first(st, b) if n in ("begin", "cbegin") else [(st, T("ait", self.endof(b), END, ()))]
        if obj is not None and n == "size" and not vs:
            o = unm(self.rv(st, obj))
            if o.op == "bag" and o.a[0] == "homs": return [(st, T("cnt", 1, None))]
        if obj is not None and (q.startswith("std::unique_ptr::") or q.startswith("std::__uniq_ptr")) and n in ("operator*", "operator->", "get"):
            o = unm(self.rv(st, obj))
            if o.op == "h": return [(st, LV(T("tmp", o)) if n == "operator*" else T("addr", T("tmp", o)))]
        if n == "operator()" and obj is not None and q.startswith("sdd::hom::inductive_base::"):
            xs = [unm(self.rv(st, v)) for v in vs]
            h = self.clean(self.rv(st, obj))
            return [(st, T("indh", h, *[self.clean(x) for x in xs]))]
        return super().hcall(fn, obj, vs, st, fr, line)

def hobj(p, cls):
    """the object of class cls with symbolic operands, and what they are: ({field: kind}, trailing operands?)"""
    fs, kinds = [], {}
    for f in cls.fields:
        n, t = f["n"], p.type(f["t"])
        k = kind_of(t)
        kinds[n] = k
        fs.append((n, T("h", n) if k in ("hom", "fun") else T("opt", T("h", n)) if k == "opt" else HOMS() if k == "set" else T("fldv", n)))
    tr = any(f.name == "begin" and "homomorphism<" in str(f.rt) and str(f.rt).rstrip().endswith("*") for f in p.by_cls.get(cls.id, []))
    return T("hobj", tuple(fs)), kinds, tr
def start(I, fn, st, x=None):
    """(args, this) for a method of an operation"""
    o, kinds, tr = hobj(I.p, fn.klass)
    this = T("lg", "this"); st.store[this] = o
    args = []
    for q in fn.params:
        t = I.p.type(q.get("t"))
        if strip(t) == "sdd::order": st.store[T("lg", "order")] = ORDER; args.append(LV(T("lg", "order")))
        elif strip(t) == "sdd::SDD": st.store[T("lg", "x")] = x; args.append(LV(T("lg", "x")))
        else: args.append(None)
    return args, this
def kinds(ctx):
    """the kinds of operations (one configuration suffices: the code is the same template)"""
    p = ctx.prog
    r = {}
    for c in p.classes:
        if c.qn.startswith("sdd::hom::_") and c.qn.count("::") == 2 and any(f.name == "operator()" and f.body is not None for f in p.by_cls.get(c.id, [])):
            r.setdefault((c.qn, "SDD<" in targs_(c)), []).append(c)
    return [c for v in r.values() for c in (v if ctx.tier == "thorough" else v[:1])]
def targs_(c): return c.ta.split(">", 1)[-1] if c.qn.endswith("_cons") else ""
def method(p, cls, name): 
    r = [f for f in p.by_cls.get(cls.id, []) if f.name == name and f.body is not None]
    return r[0] if r else None
