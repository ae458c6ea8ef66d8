"""C04: union, intersection and difference of diagrams are the set operations."""
from common import *
from ddcases import *
import itertools

UNI = lambda ks: any(k[0] == "I" for k in ks)
INT_ = lambda ks: bool(ks) and all(k[0] == "I" for k in ks)
DIF = lambda a, b: a[0] == "I" and b[0] != "I"

def seqargs(K):
    """the operands of an n-ary operation: every kind of K at least once, in any number and order"""
    K = tuple(sorted(K))
    def make(I):
        r = []
        for k in K:
            st = St()
            op = I.operand(st, k)
            r.append((st, [T("opit", K, op, (k,)), T("opit", K, "end", ()), None], None))
        return r
    return make
def twonodes(a, b, extra=2):
    def make(I):
        st = St()
        x, y = I.operand(st, a), I.operand(st, b)
        la, lb = T("lg", "lhs"), T("lg", "rhs")
        st.store[la], st.store[lb] = x, y
        return [(st, [LV(la), LV(lb), LV(la), LV(lb)], None)]
    return make
def twosets(a, b, srt, ctx=True, same=False):
    def make(I):
        st = St()
        x = I.new(st, a, srt)
        y = x if same else I.new(st, b, srt)
        la, lb = T("lg", "lhs"), T("lg", "rhs")
        st.store[la], st.store[lb] = x, y
        return [(st, ([None] if ctx else []) + [LV(la), LV(lb)], None)]
    return make
def builder(kinds, oth, srt):
    def make(I):
        st = St()
        es = tuple((I.fresh(st), I.new(st, k, srt)) for k in kinds)
        l = T("lg", "builder")
        st.store[l] = T("obj", "sdd::dd::nary_builder", (("has_zero", FALSE), ("set_", T("bag", "set", es, "S" + srt if oth else False))))
        return [(st, [None, LV(l)], None)]
    return make

def listed(kinds):
    def make(I):
        st = St()
        l = T("lg", "list")
        st.store[l] = T("coll", *[I.new(st, k, "s") for k in kinds])
        return [(st, [LV(l)], None)]
    return make

def quickpick(ctx, fns):
    """one instantiation of each definition and of each kind of node it is for (all of them in the thorough tier)"""
    if ctx.tier == "thorough": return fns
    r = {}
    for f in fns: r[(f.rel, f.line)] = f
    return list(r.values())

def build(ctx):
    p = ctx.prog
    m = lambda q: [f for f in p.find(q) if f.body is not None]
    cases = []
    def add(rule, fn, name, make, want, cost=0, **kw):
        c = Case(rule, fn, name, make, want, **kw); c.cost = cost; cases.append(c)
    # the algorithms on nodes
    for q, rule, spec in (("sdd::dd::sum_op_impl::work", "union", UNI), ("sdd::dd::intersection_op_impl::work", "intersection", INT_)):
        fs = quickpick(ctx, m(q))
        if not fs: raise Vanished(q)
        for f in fs:
            for K in (("Ia",), ("Oo",), ("Ia", "Oo")): add(rule, f, "operands %s" % "+".join(K), seqargs(K), spec(K), cost=len(K) * 10)
    dv = [f for f in m("sdd::dd::difference_visitor::operator()") if len(f.params) == 4 and "node<" in str(p.type(f.params[0].get("t")) if isinstance(f.params[0], dict) else "") and "node<" in str(p.type(f.params[1].get("t"))) and p.type(f.params[0].get("t")) == p.type(f.params[1].get("t"))]
    dv = [f for f in dv if any(x.get("k") == "rfor" or x.get("k") == "for" or x.get("k") == "while" for x in walk(f.body))] or dv
    if not dv: raise Vanished("difference of two nodes")
    for f in quickpick(ctx, dv):
        for a in ("Ia", "Oa", "On"):
            for b in ("Ia", "Oa", "On"): add("difference", f, "%s - %s" % (a, b), twonodes(a, b), DIF(a, b), cost=5)
    # what leads to them
    for q, rule, spec in (("sdd::dd::sum", "union", UNI), ("sdd::dd::intersection", "intersection", INT_)):
        fs = m(q)
        under = tuple(f.id for f in fs)
        for f in quickpick(ctx, fs):
            for ks, oth in (((), False), (("I",), False), (("O",), False), (("I", "I"), False), (("O", "O"), False), (("I", "O"), False), (("I", "O"), True), (("O", "O"), True), (("I", "I", "O"), False), (("I", "O", "O"), False), (("I", "I", "I"), False), (("I", "I", "O"), True)):
                kk = ks + (("O",) if oth else ())
                add(rule, f, "builder {%s%s}" % (",".join(ks), ",…" if oth else ""), builder(ks, oth, "v"), spec(kk), under=under)
    fs = m("sdd::dd::difference")
    for f in quickpick(ctx, fs):
        for a in "EOI":
            for b in "EOI": add("difference", f, "%s - %s" % (a, b), twosets(a, b, "v"), DIF(a, b), under=tuple(x.id for x in fs))
        add("difference", f, "x - x", twosets("I", "I", "v", same=True), False, under=tuple(x.id for x in fs))
    # the public functions
    isdd = lambda f: len(f.params) == 2 and all("SDD<" in p.type(x.get("t")) for x in f.params)
    lhs = lambda I, st, v: I.read(st, T("lg", "lhs"))
    for op, rule, spec in (("+", "union", lambda a, b: UNI((a, b))), ("&", "intersection", lambda a, b: INT_((a, b))), ("-", "difference", DIF)):
        for q, get in (("sdd::operator" + op, None), ("sdd::operator" + op + "=", lhs)):
            fs = [f for f in m(q) if isdd(f)]
            if not fs: raise Vanished(q)
            for f in quickpick(ctx, fs):
                for a in "EOI":
                    for b in "EOI":
                        add(rule, f, "%s %s %s" % (a, op, b), twosets(a, b, "s", ctx=False), spec(a, b))
                        if get is not None: add(rule, f, "%s %s= %s, left operand" % (a, op, b), twosets(a, b, "s", ctx=False), spec(a, b), get=get)
                add(rule, f, "x %s x" % op, twosets("I", "I", "s", ctx=False, same=True), op != "-")
    for q, rule, spec in (("sdd::sum", "union", UNI), ("sdd::intersection", "intersection", INT_)):
        fs = [f for f in m(q) if not any("order<" in p.type(x.get("t")) for x in f.params)]
        if not fs: raise Vanished(q)
        for f in quickpick(ctx, [f for f in fs if len(f.params) == 1]):
            for n in (0, 1, 2, 3):
                for K in itertools.combinations_with_replacement("EIO", n): add(rule, f, "list {%s}" % ",".join(K), listed(K), spec(K))
        for f in quickpick(ctx, [f for f in fs if len(f.params) == 2]):
            for n in (1, 2, 3):
                for K in itertools.combinations("EIO", n): add(rule, f, "range of %s" % "+".join(K), seqargs(K), spec(K))
    return cases

def check(ctx):
    ctx.rule("union", "for an arbitrary assignment, the result contains it if and only if one of the operands does")
    ctx.rule("intersection", "for an arbitrary assignment, the result contains it if and only if all the operands do")
    ctx.rule("difference", "for an arbitrary assignment, the result contains it if and only if the left operand does and the right one does not")
    def on(c, res, exc, why, bad):
        w = "%s, %s" % (site(c.fn), c.name)
        if exc is not None: ctx.ob(c.rule, w, None, "not decided: " + exc); return
        for imp, rel, line, msg in bad:
            if "raises an error" in msg and not imp: ctx.ob(c.rule, w, False, "%s (%s:%s)" % (msg, rel, line))
        rets = [r for r in res if r[0] == "ret"]
        if not rets: ctx.ob(c.rule, w, None, "no result"); return
        for kind, s, shown, imp in rets:
            if s is None: ctx.ob(c.rule, w, None, "the result is not described by the domain: %s %s" % (shown, why)); continue
            if (s == "I") == c.want: ctx.ob(c.rule, w, True)
            else: ctx.ob(c.rule, w, None if imp else False, ("the point is in the result but must not be" if s == "I" else "the point is lost: it must be in the result") + (" (imprecise: %s)" % "; ".join(why) if imp else ""))
    run_cases(ctx, build(ctx), on)
    ctx.part("dispatch", lambda: dispatch(ctx))
    for r in ("union", "intersection", "difference"): ctx.need(r, 9)

def targs(t):
    """top-level template arguments of a type"""
    i = t.index("<"); d, cur, r = 0, "", []
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: r.append(cur.strip()); cur = ""; continue
        cur += ch
    return r + [cur.strip()]
def dispatch(ctx):
    p = ctx.prog
    ctx.rule("operands", "the evaluation of a set operation hands all of its operands, in their roles, to the algorithm of that operation for the kind of its first operand")
    works = ("sdd::dd::sum_op_impl::work", "sdd::dd::intersection_op_impl::work")
    kinds = {}
    for c in p.classes.values() if isinstance(p.classes, dict) else p.classes:
        if c.qn == "sdd::mem::variant":
            a = targs(c.type)
            if any("zero_terminal" in x for x in a): kinds[[x for x in a if "zero_terminal" in x][0]] = a
    def nary(f):
        I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn in works else None)
        op = targs(f.klass.type)
        conf = op[0]
        ks = [v for k, v in kinds.items() if conf + ">" in k]
        w = "%s of %s" % (site(f), strip(op[1]))
        b, n = T("fld", IN("*this"), "operands"), T("fld", IN("*this"), "size")
        rets = [o for o in outs if o.kind == "ret"]
        if not rets: ctx.ob("operands", w, None, "no result"); return
        for o in rets:
            cs = [e for e, l in flat(o.eff) if getattr(e, "fn", None) is not None and e.fn.qn in works]
            if len(cs) != 1 or o.val is not cs[0].res: ctx.ob("operands", w, None, "the result is not that of one algorithm"); continue
            g, av = cs[0].fn, cs[0].args
            if g.klass.type != op[1]: ctx.fail("operands", w, "evaluated by %s" % g.klass.type); continue
            ok = len(av) >= 2 and av[0] is b and av[1] is T("padd", b, n)
            if not ok:
                ctx.ob("operands", w, False if av[0].op in ("padd", "fld") and av[1].op in ("padd", "fld") else None, "the algorithm gets the operands from %s to %s" % (show(av[0]), show(av[1]))); continue
            i = [k.a[1].a[0] for k, v in o.st.facts.items() if v is True and k.op == "eq" and k.a[0].op == "fld" and k.a[0].a[1] == "index" and k.a[1].op == "int"]
            if len(i) != 1 or not ks: ctx.ob("operands", w, None, "the kind of the operands is not tested by index"); continue
            nt = targs(str(g.ta))[-1]
            ctx.ob("operands", w + ", kind %d" % i[0], nt == ks[0][i[0]], "operands of kind %s are handled as %s" % (ks[0][i[0]], nt))
    ctx.each("operands", [f for f in p.find("sdd::dd::nary_op::operator()") if f.body is not None], nary)
    def diff(f):
        I, outs = ctx.run(f)
        w = site(f)
        for o in outs:
            if o.kind != "ret": continue
            v = o.val
            if v.op == "moved": v = v.a[0]
            if v.op != "callv": ctx.ob("operands", w, None, "the result is not that of one call of the visitor: " + show(v)[:100]); continue
            def role(t):
                ns = {x for x in ("left", "right") if "." + x in show(t) + "." or "fld(%s" % x in show(t)}
                return ns.pop() if len(ns) == 1 else None
            r = [role(x) for x in v.a[-4:]]
            ctx.ob("operands", w, True if r == ["left", "right"] * 2 else False if None not in r else None, "the visitor gets %s" % [show(x)[:60] for x in v.a[-4:]])
    ctx.each("operands", [f for f in p.find("sdd::dd::difference_op::operator()") if f.body is not None], diff)
    ctx.need("operands", 3)
