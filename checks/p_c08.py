"""C08: combining incompatible diagrams raises an error instead of giving a result."""
from common import *
from ddcases import *
from p_c04 import seqargs, twonodes, twosets, builder, quickpick, targs
import visits

CHK, HEAD, LOST, EVAL = T("lg", "!checked"), T("lg", "!head"), T("lg", "!unchecked"), T("lg", "!evaluated")
class Compat(DD):
    """which operands are known to be nodes of the same kind and variable as the first one"""
    def node(self, st, s_, shape, v=None, s=None):
        return T("node", s_, shape, v or SET(I_, "v", self.fresh(st)), s or self.new(st, s_, "s"), self.fresh(st))
    def known(self, st): return st.store.get(CHK, T("chk")).a
    def add(self, st, t):
        k = self.known(st)
        if t.op == "#" and t not in k: st.store[CHK] = T("chk", *sorted(k + (t,), key=repr))
    def unify_node(self, fn, vs, st, fr, line):
        r = super().unify_node(fn, vs, st, fr, line)
        for s, v in r:
            if v.op == "node": self.add(s, tagof(v))       # (its variable: C23)
        return r
    def call(self, fn, obj, vs, st, fr, line):
        if fn.qn == "sdd::dd::check_compatibility":
            xs = [unm(self.rv(st, v)) for v in vs]
            xs = [x for x in xs if x.op == "node"]
            if len(xs) == 2:
                if any(tagof(x) in self.known(st) for x in xs):
                    for x in xs: self.add(st, tagof(x))
                else: self.flaw(st, fr, line, "operands are compared with one that is not known to be compatible itself")
            else: self.imprecise(st, "comparison of " + ", ".join(show(unm(self.rv(st, v)))[:60] for v in vs))
            return [(st, VOID)]
        if fn.name == "variant_cast":
            x = unm(self.rv(st, vs[0]))
            if x.op == "node" and tagof(x) not in self.known(st): self.flaw(st, fr, line, "an operand is used as a node of the kind of the first one before it is known to be one")
            return [(st, vs[0])]
        if fn.name == "variable" and obj is not None:
            x = unm(self.rv(st, obj))
            if x.op == "node": return [(st, T("in", "variable", tagof(x)))]
        return super().call(fn, obj, vs, st, fr, line)
    def opnext(self, st, it):
        cur = it.a[1]
        h = st.store.get(HEAD)
        if h is not None and isinstance(cur, T) and cur.op == "node" and tagof(cur) is h.a[0]:
            if h.a[1]: self.imprecise(st, "several passes over the operands")
            st.store[HEAD] = T("head", h.a[0], True)
        if isinstance(cur, T) and cur.op == "node" and tagof(cur) not in self.known(st): st.store[LOST] = TRUE
        return super().opnext(st, it)
    def canon(self, st, drop=()):
        s = st.copy()
        k = s.store.pop(CHK, None)
        if k is not None:
            alive = set()
            for l, v in self.live(s, drop).items(): alive.update(info(v)[0])
            s.store[CHK] = T("chk", *[x for x in k.a if x in alive])
        return super().canon(s, drop)

class Entry(DD):
    """which operands are handed to the evaluation"""
    def call(self, fn, obj, vs, st, fr, line):
        if fn.qn in ("sdd::one", "sdd::SDD::one_ptr"): return [(st, T("in", "one"))]
        if fn.qn == "sdd::mem::cache::operator()":
            op = unm(self.rv(st, vs[0]))
            xs = None
            if op.op == "nary": xs = [unm(it) for e, it in op.a[1].a[1]]
            elif op.op == "obj" and op.a[0] == "sdd::dd::difference_op": xs = [unm(self.field(op, "left")), unm(self.field(op, "right"))]
            r = super().call(fn, obj, vs, st, fr, line)
            if xs is not None:
                for s, v in r: s.store[EVAL] = T("ev", *[tagof(x) for x in xs])
            return r
        if fn.qn in ("sdd::dd::sum", "sdd::dd::intersection", "sdd::dd::difference") and fr is not None and fn.id not in self.under:
            # (these have obligations of their own)
            xs = [unm(self.rv(st, v)) for v in vs[1:]]
            ys = []
            for b in xs:
                m = unm(self.field(b, "set_")) if b.op in ("obj", "upd") else b
                if m.op == "coll": m = self.tobag(st, m, "set")
                ys += [unm(it) for e, it in m.a[1]] if m.op == "bag" else [m]
            r = super().call(fn, obj, vs, st, fr, line)
            for s, v in r or []: s.store[EVAL] = T("ev", *[tagof(x) for x in ys if isset(x)])
            return r
        return super().call(fn, obj, vs, st, fr, line)

def algorithms(ctx):
    p = ctx.prog
    cases = []
    for q in ("sdd::dd::sum_op_impl::work", "sdd::dd::intersection_op_impl::work"):
        fs = [f for f in p.find(q) if f.body is not None]
        if not fs: raise Vanished(q)
        for f in quickpick(ctx, fs):
            for K in ((("Oo",), ("Ia",)) if "sum" in q else (("Ia",),)):
                def make(I, K=K):
                    r = seqargs(K)(I)
                    for st, args, this in r: st.store[CHK] = T("chk", tagof(args[0].a[1])); st.store[HEAD] = T("head", tagof(args[0].a[1]), False)
                    return r
                def judge(I, st, kind, v, q=q):
                    if kind != "ret": return True, ""
                    if v is None or not isset(v): return None, "the result is not described by the domain"
                    if LOST in st.store and sym(v) != E_: return False, "a result is given though an operand was never compared with the others"
                    return True, ""
                c = Case("operands", f, "operands " + "+".join(K), make, judge=judge, interp=Compat); c.cost = 20; cases.append(c)
    return cases

KINDS = ("zero", "one", "flat", "hier")
def kind(t):
    t = t.replace("const ", "").replace(" &", "")
    if t.startswith("sdd::zero_terminal"): return "zero"
    if t.startswith("sdd::one_terminal"): return "one"
    if t.startswith("sdd::node<") or t.startswith("sdd::flat_node") or t.startswith("sdd::hierarchical_node"):
        return "hier" if t.startswith("sdd::hierarchical_node") or "SDD<" in t else "flat"

def carries(I, st, v, a, b):
    """does the error carry the two operands?"""
    if v is None or v.op != "thrown" or "sdd::top" not in str(v.a[0]): return False
    ts = {unm(x) for x in subterms(v.a[1])} if len(v.a) > 1 and isinstance(v.a[1], T) else set()
    return a in ts and b in ts

def pairs(ctx):
    """what the visitors do for each pair of kinds"""
    p = ctx.prog
    done = {}
    def go(f):
        ks = tuple(kind(p.type(q.get("t"))) for q in f.params[:2])
        if None in ks: return
        name = f.klass.qn.split("::")[-1]
        w = "%s for %s and %s, %s" % (site(f), ks[0], ks[1], str(f.klass.ta)[:40])
        if "zero" in ks: return         # never an operand of an evaluated operation (rule entry)
        if ks[0] == ks[1] and ks[0] == "one" and name.startswith("difference"): return     # equal operands (rule entry)
        done.setdefault((name, ks), []).append(f)
        if name.startswith("difference") and ks[0] == ks[1]: return      # rule variables
        I, outs = ctx.run(f)
        if not outs: ctx.ob("pairs", w, None, "no outcome")
        a, b = IN(f.params[2].get("n") or "p2"), IN(f.params[3].get("n") or "p3")
        for o in outs:
            ef = showfacts(o.st.facts)
            if ks[0] != ks[1] or o.kind == "throw":
                if o.kind != "throw": ctx.ob("pairs", w, False, "gives a result for diagrams of different kinds"); continue
                if not carries(I, o.st, o.val, a, b): ctx.ob("pairs", w, False, "raises %s rather than the incompatibility of the two operands" % show(o.val)[:120]); continue
                if ks[0] == "one" and ks[1] == "one": ctx.ob("pairs", w, False, "raises an error for compatible operands"); continue
            if ks[0] == ks[1] and ks[0] != "one":
                l, r = [T("fld", IN(q.get("n")), "variable_") for q in f.params[:2]]
                rel, other = {-1, 0, 1}, []
                for k, v in o.st.facts.items():
                    if k.op in ("eq", "lt") and set(k.a) == {l, r} or (k.op == "eq" and k.a == (l, l)) or (k.op == "eq" and k.a == (r, r)):
                        h = lambda d: {"eq": d == 0, "lt": d < 0}[k.op] if k.a[0] is l else {"eq": d == 0, "lt": d > 0}[k.op]
                        rel = {d for d in rel if h(d) == v}
                    else: other.append(k)
                if o.kind == "ret": ctx.ob("pairs", w, True if rel <= {0} else None if other else False, "gives a result though the variables may be different (%s)" % ef[:100])
                else: ctx.ob("pairs", w, True if 0 not in rel else None if other else False, "raises an error though the variables may be equal (%s)" % ef[:100])
                continue
            ctx.ob("pairs", w, True, "")
    fs = [f for q in ("check_compatibility_visitor", "difference_visitor") for f in p.find("sdd::dd::%s::operator()" % q) if f.body is not None and len(f.params) == 4]
    ctx.each("pairs", fs, go)
    for n in ("check_compatibility_visitor", "difference_visitor"):
        for x in KINDS[1:]:
            for y in KINDS[1:]:
                if x == y == "one" and n == "difference_visitor": continue
                if (n, (x, y)) not in done: ctx.ob("pairs", "%s for %s and %s" % (n, x, y), None, "no overload found")
    return [f for (n, ks), v in done.items() for f in v if n == "difference_visitor" and ks[0] == ks[1]]

def variables(ctx, fs):
    cases = []
    for f in quickpick(ctx, fs):
        def make(I):
            r = twonodes("Ia", "Ia")(I)
            for st, args, this in r: st.store[CHK] = T("chk", *[tagof(st.store[T("lg", x)]) for x in ("lhs", "rhs")])
            return r
        def judge(I, st, kind, v):
            a, b = st.store[T("lg", "lhs")], st.store[T("lg", "rhs")]
            ta, tb = T("in", "variable", tagof(a)), T("in", "variable", tagof(b))
            f = [val for k, val in st.facts.items() if k.op == "eq" and ta in k.a and tb in k.a]
            if kind == "throw":
                if f and f[0] is True: return False, "raises an error for nodes of the same variable"
                if not f: return None, "raises an error without comparing the variables"
                return carries(I, st, v, a, b), "the error does not carry the two operands: %s" % show(v)[:200]
            if kind != "ret": return None, kind
            if not f: return False, "a result is given without comparing the variables of the operands"
            return f[0], "a result is given though the variables are different"
        c = Case("variables", f, "two nodes", make, judge=judge, interp=Compat); c.cost = 10; cases.append(c)
    return cases

def entries(ctx):
    """two different operands, neither empty, always reach the evaluation"""
    p = ctx.prog
    m = lambda q: [f for f in p.find(q) if f.body is not None]
    cases = []
    def add(f, name, make, names, **kw):
        def mk(I):
            r = make(I)
            for st, args, this in r: st.store[T("lg", "!ops")] = T("ops", *[tagof(x) for x in names(st)])
            return r
        def judge(I, st, kind, v):
            if kind != "ret": return True, ""
            want = set(st.store[T("lg", "!ops")].a)
            if len(want) < 2: return True, ""
            ev = set(st.store.get(EVAL, T("ev")).a)
            return want <= ev, "a result is given without evaluating the operation on %s" % ("its operands" if not ev else "all of its operands")
        cases.append(Case("entry", f, name, mk, judge=judge, interp=Entry, **kw))
    inb = lambda st: [it for e, it in st.store[T("lg", "builder")].a[1][1][1].a[1] if sym(it) != E_]
    two = lambda st: [st.store[T("lg", n)] for n in ("lhs", "rhs")]
    for q in ("sdd::dd::sum", "sdd::dd::intersection"):
        fs = [f for f in m(q) if strip(str(f.rt)) == "sdd::SDD"]
        if not fs: raise Vanished(q)
        for f in quickpick(ctx, fs):
            for ks in ("II", "IO", "OO", "III", "IOO"): add(f, "builder {%s}" % ",".join(ks), builder(tuple(ks), False, "s"), inb, under=tuple(x.id for x in fs))
    fs = [f for f in m("sdd::dd::difference") if strip(str(f.rt)) == "sdd::SDD"]
    if not fs: raise Vanished("sdd::dd::difference")
    for f in quickpick(ctx, fs):
        for a in "OI":
            for b in "OI": add(f, "%s - %s" % (a, b), twosets(a, b, "s"), two, under=tuple(x.id for x in fs))
    for op in "+&-":
        for q in ("sdd::operator" + op, "sdd::operator" + op + "="):
            fs = [f for f in m(q) if len(f.params) == 2 and all("SDD<" in p.type(x.get("t")) for x in f.params)]
            if not fs: raise Vanished(q)
            for f in quickpick(ctx, fs):
                for a in "OI":
                    for b in "OI": add(f, "%s %s %s" % (a, op, b), twosets(a, b, "s", ctx=False), two)
    return cases

def dispatch(ctx):
    p = ctx.prog
    works = ("sdd::dd::sum_op_impl::work", "sdd::dd::intersection_op_impl::work")
    def nary(f):
        w = site(f) + " " + strip(targs(f.klass.type)[1])
        I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn in works else None)
        b = T("fld", IN("*this"), "operands")
        n = 0
        for o in outs:
            i = [(k.a[1].a[0], v) for k, v in o.st.facts.items() if k.op == "eq" and k.a[0].op == "fld" and k.a[0].a[1] == "index" and k.a[1].op == "int"]
            if o.kind == "throw":
                ok = o.val.op == "thrown" and "sdd::top" in str(o.val.a[0])
                ts = show(o.val)
                n += 1
                ctx.ob("dispatch", w, (ok and show(T("padd", b, INT(1)))[:12] in ts) or (None if ok else False), "raises " + ts[:200])
                if any(v for _, v in i): ctx.ob("dispatch", w, None, "raises an error for operands of kind %s" % i)
            elif o.kind == "ret":
                ctx.ob("dispatch", w, True if any(v for _, v in i) else False if i else None, "gives a result for an operand that is not a node")
        if not n: ctx.ob("dispatch", w, False, "never raises an error, whatever the kind of the first operand")
    ctx.each("dispatch", [f for f in p.find("sdd::dd::nary_op::operator()") if f.body is not None], nary)
    def through(f, a, b):
        w = site(f) + " " + f.conf[:20]
        I, outs = ctx.run(f, prims=visits.PRIMS)
        for o in outs:
            vs = [e for e, l in flat(o.eff) if getattr(e, "fn", None) is not None and e.fn.qn in visits.PRIMS] if f.name == "check_compatibility" else None
            t = o.val if vs is None else (vs[0].res if len(vs) == 1 else None)
            t = unm(t) if t is not None else None
            if o.kind != "ret" or t is None or t.op != "visit":
                ctx.ob("dispatch", w, False if f.name == "check_compatibility" and o.kind == "ret" and not vs else None, "the operands are not visited (%s)" % showfacts(o.st.facts)[:100]); continue
            x = [unm(y) for y in t.a[1:]]
            ctx.ob("dispatch", w, True if x == [a, b, a, b] else False if set(x) <= {a, b} else None, "visits %s" % ", ".join(show(y)[:40] for y in x))
    for f in p.find("sdd::dd::check_compatibility"):
        if f.body is not None: ctx.each("dispatch", [f], lambda f: through(f, IN(f.params[0]["n"]), IN(f.params[1]["n"])))
    for f in p.find("sdd::dd::difference_op::operator()"):
        if f.body is not None: ctx.each("dispatch", [f], lambda f: through(f, T("fld", IN("*this"), "left"), T("fld", IN("*this"), "right")))

def check(ctx):
    ctx.rule("entry", "two different operands, neither of them empty, always reach the evaluation of the operation: only empty and equal operands are shortcuts")
    ctx.rule("dispatch", "the evaluation raises the error when its first operand is not a node, and otherwise compares the operands in their roles")
    ctx.rule("pairs", "for every pair of kinds of operands, the comparison raises the error, with the two operands, if and only if the kinds or the variables are different")
    ctx.rule("variables", "the difference of two nodes raises the error, with the two operands, if and only if their variables are different")
    ctx.rule("operands", "every operand of an n-ary operation is compared with the first one, directly or through others, before it is used as a node of the same kind, unless the result is empty whatever it is")
    def on(c, res, exc, why, bad):
        w = "%s, %s" % (site(c.fn), c.name)
        if exc is not None: ctx.ob(c.rule, w, None, "not decided: " + exc); return
        for imp, rel, line, msg in bad:
            if "operand" in msg and "empty" not in msg: ctx.ob(c.rule, w, None if imp else False, "%s (%s:%s)" % (msg, rel, line))
        if not res: ctx.ob(c.rule, w, None, "no result")
        for kind, ok, msg, imp in res: ctx.ob(c.rule, w, ok if ok is not False or not imp else None, msg + (" (imprecise: %s)" % "; ".join(why) if imp else ""))
    cs = []
    ctx.part("pairs", lambda: cs.extend(variables(ctx, pairs(ctx))))
    for part in (algorithms, entries): ctx.part(part.__name__, lambda: cs.extend(part(ctx)))
    run_cases(ctx, cs, on)
    ctx.part("dispatch", lambda: dispatch(ctx))
    ctx.need("entry", 20); ctx.need("dispatch", 4); ctx.need("pairs", 8); ctx.need("variables", 1); ctx.need("operands", 3)
