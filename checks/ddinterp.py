"""The one-point domain for diagrams: how the library's own types look in it."""
from onepoint import *
import re

def strip(t):
    t = str(t)
    for _ in range(12): t = re.sub(r"<[^<>]*>", "", t)
    return t.replace("const ", "").replace(" &", "").replace("&", "").strip()
def unm(t): return t.a[0] if t.op == "moved" else t

SETCLS = ("sdd::SDD", "sdd::values::flat_set", "sdd::values::bitset", "sdd::mem::ptr", "sdd::mem::unique", "sdd::mem::variant", "sdd::node")
IGN = ("sdd::dd::check_compatibility", "sdd::mem::rewinder", "sdd::mem::linear_alloc", "sdd::mem::linear_arena", "sdd::dd::context::arena")

class DD(PInterp):
    """oracle: the recursive calls (through the caches) and the operations on value sets do what they should (they have
    obligations of their own)"""
    def __init__(self, prog, others=None, **kw):
        super().__init__(prog, **kw)
        self.bad = []
        self.others = others or {}
    # ---- the library's types
    def collapse(self, st, cls, l):
        if cls.qn == "sdd::dd::nary_builder":
            v = self.read(st, l)
            if v.op == "upd": self.write(st, l, T("obj", cls.qn, v.a[1]))
        if cls.qn == "sdd::SDD":
            v = self.read(st, l)
            if v.op == "obj" or v.op == "upd":
                p = unm(self.field(v, "ptr_"))
                if isset(p): self.write(st, l, p)
    def call(self, fn, obj, vs, st, fr, line):
        n, q = fn.name, fn.qn
        if any(q == x or q.startswith(x + "::") for x in IGN): return [(st, VOID)]
        if n == "variant_cast" or q in ("sdd::mem::cast",): return [(st, vs[0])]
        o = unm(self.rv(st, obj)) if obj is not None else None
        if o is not None and isset(o):
            r = self.set_method(fn, n, o, obj, vs, st, fr, line)
            if r is not None: return r
        if obj is None or n.startswith("operator"):
            av = ([obj] if obj is not None else []) + list(vs)
            xs = [unm(self.rv(st, v)) for v in av]
            if len(xs) == 2 and (isset(xs[0]) or isset(xs[1])) and fn.mine:
                if n in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="): return [(st, self.cmp(n[8:], *xs))]
                if n == "swap": return self.swap(vs[0], vs[1], st, fr, line)
                if q.startswith("sdd::values::") and isset(xs[0]) and isset(xs[1]):
                    if n == "sum": return self.op_union(st, xs)
                    if n == "intersection": return self.op_inter(st, xs)
                    if n == "difference": return self.op_diff(st, *xs)
            if n in ("operator==", "operator!=") and len(xs) == 2 and all(x.op in ("ait", "opit") for x in xs): return [(st, self.cmp(n[8:], *xs))]
        if q in ("sdd::dd::sum", "sdd::dd::intersection", "sdd::dd::difference") and fr is not None and fn.id not in self.under:
            r = self.dd_op(fn, n, vs, st)
            if r is not None: return r
        if q in ("sdd::SDD::zero_ptr", "sdd::zero"): return [(st, self.new(st, E_))]
        if q in ("sdd::SDD::one_ptr", "sdd::one"): return [(st, T("set", "1", T("one")))] if False else None or self.opaque(fn, obj, vs, st, fr, line)
        if q == "sdd::SDD::unify_node": return self.unify_node(fn, vs, st, fr, line)
        if q == "sdd::mem::cache::operator()":
            op = unm(self.rv(st, vs[0]))
            if op.op == "nary":
                xs = [it for e, it in op.a[1].a[1]]
                if isinstance(op.a[1].a[2], str): xs.append(self.new(st, O_, op.a[1].a[2][1:]))
                if any(sym(unm(x)) == E_ for x in xs): self.flaw(st, fr, line, "the empty diagram is an operand of an evaluated operation, which raises an error")
                if "sum" in op.a[0]: return self.op_union(st, xs)
                if "intersection" in op.a[0]: return self.op_inter(st, xs)
            if op.op == "obj" and op.a[0] == "sdd::dd::difference_op":
                a, b = unm(self.field(op, "left")), unm(self.field(op, "right"))
                if isset(a) and isset(b) and E_ in (sym(a), sym(b)): self.flaw(st, fr, line, "the empty diagram is an operand of an evaluated operation, which raises an error")
                if isset(a) and isset(b): return self.op_diff(st, a, b)
            self.imprecise(st, "cached operation " + show(op)[:100])
            return [(st, UNK)]
        if q in ("sdd::global",) or q.startswith("sdd::dd::context::"): return [(st, T("ctxt"))]
        return super().call(fn, obj, vs, st, fr, line)
    under = ()
    def dd_op(self, fn, n, vs, st):
        """the library's own set operations on builders (each has an obligation of its own)"""
        xs = [unm(self.rv(st, v)) for v in vs[1:]]
        if n == "difference" and len(xs) == 2 and all(isset(x) for x in xs): return self.op_diff(st, *xs)
        if len(xs) != 1: return None
        b = xs[0]
        m = unm(self.field(b, "set_")) if b.op in ("obj", "upd") else b
        if m.op == "coll": m = self.tobag(st, m, "set")
        if m.op != "bag": return None
        ys = [it for e, it in m.a[1]]
        if isinstance(m.a[2], str): ys.append(self.new(st, O_, m.a[2][1:]))
        if any(not isset(unm(y)) for y in ys): return None
        if len(ys) > 1 and any(sym(unm(y)) == E_ for y in ys) and str(fn.rt).startswith("sdd::SDD<"): self.bad.append((IMP in st.store, fn, fn.line, "the empty diagram is an operand of an evaluated operation, which raises an error"))
        return self.op_union(st, ys) if n == "sum" else self.op_inter(st, ys)
    def set_method(self, fn, n, o, obj, vs, st, fr, line):
        if n == "empty": return [(st, TRUE if sym(o) == E_ else FALSE)]
        if n == "(conv)": return [(st, FALSE if sym(o) == E_ else TRUE)]
        if n in ("operator*", "ptr", "data"): return [(st, obj)]
        if n == "operator->": return [(st, T("addr", self.loc(obj)))]
        if n == "size": return [(st, INT(0) if sym(o) == E_ else T("cnt", 1, None))]
        if n in ("begin", "cbegin"): return self.first(st, self.container(st, o))
        if n in ("end", "cend"): return [(st, T("ait", self.endof(self.container(st, o)), END, ()))]
        if n == "variable": return [(st, T("in", "variable"))]
        if n == "insert" and len(vs) == 1:
            v = unm(self.rv(st, vs[0]))
            if v.op == "val":
                self.write(st, self.loc(obj), self.new(st, I_ if v.a[0] or sym(o) == I_ else O_, 'v'))
                return [(st, UNK)]
        if n == "operator=" or fn.ck in ("copyassign", "moveassign"): return None
        return None
    def unify_node(self, fn, vs, st, fr, line):
        b = unm(self.rv(st, vs[-1]))
        m = unm(self.field(b, "map_")) if b.op in ("obj", "upd") else b
        if m.op == "coll": m = self.tobag(st, m, "map")
        if m.op != "bag":
            self.imprecise(st, "node from " + show(m)[:80]); return [(st, UNK)]
        s_, shape = O_, "n"
        n = 0
        vv = ss = None
        for e, it in m.a[1]:
            s, v = unm(it.a[0]), unm(it.a[1])
            if not isset(s) or not isset(v): self.imprecise(st, "arc " + show(it)[:80]); return [(st, UNK)]
            if sym(s) == E_: self.flaw(st, fr, line, "an arc with an empty successor is stored")
            if sym(v) == E_: self.flaw(st, fr, line, "an arc with an empty valuation is stored")
            if sym(v) == I_:
                n += 1; shape = "a"
                if ss is None or sym(s) == I_: vv, ss = v, s
                if sym(s) == I_: s_ = I_
        if n > 1: self.flaw(st, fr, line, "two arcs whose valuations have a value in common are stored")
        if not m.a[1] and not m.a[2]: self.flaw(st, fr, line, "a node without arcs is stored")
        self.used += 1
        return [(st, self.node(st, s_, "a" if s_ == I_ else "o", vv if s_ == I_ else None, ss if s_ == I_ else None))]
    used = 0
    def flaw(self, st, fr, line, msg): self.bad.append((IMP in st.store, fr.fn, line, msg))
    def construct_with(self, fn, cls, vs, s, fr, l, placed, line):
        q = cls.qn
        vals = [unm(self.rv(s, v)) for v in vs]
        def done(v): self.write(s, l, v); return [(s, "n", None)]
        if any(q == x or q.startswith(x + "::") for x in IGN): return done(VOID)
        if q == "sdd::mem::ptr" and len(vals) == 1:
            v = vals[0]
            if v.op == "addr": v = unm(self.read(s, v.a[0]))
            if isset(v): return done(v)
        if q == "sdd::SDD":
            if not vals: return done(self.new(s, E_))
            if len(vals) == 1 and isset(vals[0]): return done(vals[0])
        if q in ("sdd::values::flat_set", "sdd::values::bitset"):
            if not vals: return done(self.new(s, E_))
            if len(vals) == 1 and isset(vals[0]): return done(vals[0])
            v = vals[0]
            if v.op in ("bag", "coll"):
                b = self.tobag(s, v, "set")
                if any(unm(it).op != "val" for e, it in b.a[1]): self.imprecise(s, "value set from " + show(b)[:80]); return done(UNK)
                y = any(unm(it).a[0] for e, it in b.a[1])
                if not b.a[1] and b.a[2]:
                    s2 = s.copy(); self.write(s2, l, self.new(s2, E_, 'v')); self.write(s, l, self.new(s, O_, 'v'))
                    return [(s, "n", None), (s2, "n", None)]
                return done(self.new(s, I_ if y else O_ if b.a[1] or b.a[2] else E_, 'v'))
        if q == "sdd::dd::nary_op" and len(vals) == 1:
            b = vals[0]
            m = unm(self.field(b, "set_")) if b.op in ("obj", "upd") else b
            if m.op == "coll": m = self.tobag(s, m, "set")
            if m.op == "bag": return done(T("nary", cls.type, m))
        return super().construct_with(fn, cls, vs, s, fr, l, placed, line)
    def bag(self, st, obj, kind):
        c = self.rv(st, obj)
        return super().bag(st, obj, kind)
