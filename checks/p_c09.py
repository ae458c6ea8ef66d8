"""C09: applying an operation gives the result its definition prescribes."""
from common import *
from homops import *
import homcases, visits
from homcases import put

class Fix(Ops):
    """for fixpoints: an application gives back its argument (which is then known to be left unchanged by the operation) or
    another diagram; two diagrams of the domain are equal if and only if they have the same name"""
    LAST = T("lg", "!last")
    cycles = False      # may an application lead back to an earlier diagram? (saturation only applies operations that grow)
    def cmp(self, op, x, y):
        a, b = unm(x), unm(y)
        if op == "==" and isset(a) and isset(b): return TRUE if tagof(a) is tagof(b) else FALSE
        return super().cmp(op, x, y)
    def app(self, st, h, o, x):
        if o is not ORDER: self.bad.append((False, self.top, self.top.line, "applied at another level: %s" % show(o)))
        k = T("fixed", h, tagof(x))
        if st.facts.get(k) is True: return [(st, x)]
        old = {} if not self.cycles else {tagof(v): v for l, v in st.store.items() if l.op in ("lg", "lv") and isset(v) and v.op == "set" and sort(v) == "?" and tagof(v) is not tagof(x)}
        s2 = st.copy()
        s2.facts[k] = True
        out = [(s2, x)]
        for w in [T("set", I_, "?", self.fresh(st))] + list(old.values()):      # a new diagram, or one that the code already has
            s3 = st.copy()
            s3.store[self.LAST] = T("apps", T("ap", h, o, x, w))
            out.append((s3, w))
        return out
    def op_union(self, st, xs):
        xs = list({tagof(unm(x)): unm(x) for x in xs}.values())
        if len(xs) == 1: return [(st, xs[0])]
        out = []
        for x in xs:
            s2 = st.copy()
            for a in s2.store.get(self.LAST, T("apps")).a:
                if a.a[2] is x and a.a[3] in xs: s2.facts[T("fixed", a.a[0], tagof(x))] = True
            out.append((s2, x))
        out.append((st, T("set", I_, "?", self.fresh(st))))
        return out
    def canon(self, st, drop=()):
        refs = {y for k, v in st.store.items() if k.op != "tmp" and isinstance(v, T) for y in subterms(v)}
        st = st.copy()
        for k in [k for k in st.store if k.op == "tmp" and k not in refs]: del st.store[k]     # temporaries of earlier statements
        s = super().canon(st, drop)
        alive = {x for v in s.store.values() for x in info(v)[0]}
        s.facts = {k: v for k, v in s.facts.items() if k.op != "fixed" or k.a[1] in alive}
        return s

class Fix1(Fix): cycles = True

def fixpoints(ctx):
    p = ctx.prog
    cases = []
    for c in kinds(ctx):
        if c.qn not in ("sdd::hom::_fixpoint", "sdd::hom::_saturation_fixpoint"): continue
        f = method(p, c, "operator()")
        _, ks, tr = hobj(p, c)
        need = [T("h", n) for n, k in ks.items() if k == "hom"] + ([MAIN] if tr or "set" in ks.values() else [])
        def make(I, f=f):
            st = St()
            I.top = f; I.under = (f.id,)
            args, this = start(I, f, st, T("set", I_, "?", I.fresh(st)))
            return [(st, args, this)]
        def judge(I, st, kind, v, need=need):
            if kind != "ret" or v is None or not isset(v): return None, "the result is not described by the domain: %s" % show(v)[:80]
            for h in need:
                if st.facts.get(T("fixed", h, tagof(v))) is not True: return False, "returns a diagram that operand %s was not found to leave unchanged" % h.a[0]
            return True, ""
        cs = Case("fixpoint", f, "any diagram", make, judge=judge, interp=Fix1 if c.qn == "sdd::hom::_fixpoint" else Fix, under=(f.id,)); cases.append(cs)
    return cases

def sets(I, st, o, vals):
    """fields that are diagrams or sets of values"""
    fs = []
    for n, v in o.a[0]: fs.append((n, vals.get(n, v)))
    return T("hobj", tuple(fs))

def whole(ctx):
    """operations that are defined on the whole diagram"""
    p = ctx.prog
    cases = []
    def h(n): return T("h", n)
    def found(I, st, hh): return [a for a in I.apps(st) if a.a[0] is hh]
    def levels(I, st):
        for a in I.apps(st):
            if a.a[1] is not ORDER: return "an operand is applied at another level: %s" % show(a.a[1])
    def one(I, st, n, s_):
        """the application of operand n to a diagram that holds the point iff s_ is I; (applications, error)"""
        a = found(I, st, h(n))
        if not a: return None, "operand %s is not applied" % n
        r = [x for x in a if (sym(x.a[2]) == I_) == (s_ == I_) and (sym(x.a[2]) == E_) == (s_ == E_)]
        if not r: return None, "operand %s is applied to another diagram than its definition says" % n
        return r[0], None
    def comp(I, st, x, v):
        r, e = one(I, st, "right", sym(x))
        if e: return False, e
        l, e = one(I, st, "left", sym(r.a[3]))
        if e: return (True, "") if sym(r.a[3]) == E_ and not found(I, st, h("left")) and sym(v) == E_ else (False, e)
        return (sym(l.a[3]) == sym(v)), "the result is not that of the left operand on the result of the right one"
    def ite(I, st, x, v):
        c, e = one(I, st, "h_if", sym(x))
        if e: return False, e
        t = sym(c.a[3])
        res = []
        a = found(I, st, h("h_then"))
        if not a and t != E_: return False, "the then part is not applied"
        for k in a:
            if (sym(k.a[2]) == I_) != (t == I_) or (sym(k.a[2]) == E_) != (t == E_): return False, "the then part is applied to another diagram than the part that the condition accepts"
            res.append(sym(k.a[3]))
        b = found(I, st, h("h_else"))
        rej = sym(x) == I_ and t != I_
        if not b and (rej or t == E_): return False, "the else part is not applied"
        for k in b:
            if (sym(k.a[2]) == I_) != rej: return False, "the else part is applied to another diagram than the part that the condition rejects"
            res.append(sym(k.a[3]))
        return (sym(v) == I_) == (I_ in res), "the result is not the union of the two parts"
    def parts(I, st, ks, tr):
        """all operands that exist: [(operand, applications)], error"""
        r = []
        for n, k in ks.items():
            if k in ("hom",): r.append((h(n), found(I, st, h(n))))
            if k == "opt":
                b = st.facts.get(T("in", "has", h(n)))
                if b is None: r.append((h(n), found(I, st, h(n))))
                elif b: r.append((h(n), found(I, st, h(n))))
                elif found(I, st, h(n)): return r, "operand %s is applied though there is none" % n
        if tr or "set" in ks.values(): r.append((MAIN, found(I, st, MAIN))); r.append((OTHER, found(I, st, OTHER)))
        return r, None
    def union(I, st, x, v, ks, tr):
        ps, e = parts(I, st, ks, tr)
        if e: return False, e
        for hh, a in ps:
            if not a and hh is not OTHER: return False, "operand %s is not applied" % hh.a[0]
            for k in a:
                if sym(k.a[2]) != sym(x): return False, "operand %s is applied to another diagram" % hh.a[0]
        hit = any(sym(k.a[3]) == I_ for hh, a in ps for k in a)
        return (sym(v) == I_) == hit, "the result is not the union of the results of the operands"
    def inter(I, st, x, v, ks, tr):
        ps, e = parts(I, st, ks, tr)
        if e: return False, e
        miss = [hh for hh, a in ps if not a and hh is not OTHER]
        for hh, a in ps:
            for k in a:
                if sym(k.a[2]) != sym(x): return False, "operand %s is applied to another diagram" % hh.a[0]
        no = any(sym(k.a[3]) != I_ for hh, a in ps for k in a)
        if sym(v) == I_ and (no or miss): return False, "the result contains what an operand does not give"
        if sym(v) != I_ and not no: return (False, "the result is empty before all operands are known" if miss else "the result loses what all operands give")
        return True, ""
    def const(I, st, x, v):
        s_ = [fv for n, fv in st.store[T("lg", "this")].a[0] if isset(fv)]
        return sym(v) == sym(s_[0]), "the result is not the constant"
    def cons(I, st, x, v):
        this = dict(st.store[T("lg", "this")].a[0])
        val = this["valuation"]
        aps = I.apps(st)
        if not aps and sym(val) != E_: return False, "the operation on the rest is not applied"
        for a in aps:
            if a.a[0] is not h("next"): return False, "another operation is applied to the rest"
            if a.a[1] is not T("om", "next", T("fldv", "o")): return (False if a.a[1].op in ("om", "ord", "fldv") else None), "the rest is handled at the level %s" % show(a.a[1])
            if sym(a.a[2]) != sym(x): return False, "the operation is not applied to the operand"
        r = sym(aps[0].a[3]) if aps else E_
        return (sym(v) == I_) == (sym(val) == I_ and r == I_) and (sym(v) == E_) == (sym(val) == E_ or r == E_), "the result is not the valuation followed by the image of the operand"
    for c in kinds(ctx):
        name = c.qn.split("::")[-1]
        f = method(p, c, "operator()")
        _, ks, tr = hobj(p, c)
        sp = {"_composition": comp, "_if_then_else": ite, "_constant": const, "_cons": cons}.get(name)
        if name in ("_sum", "_saturation_sum"): sp = lambda I, st, x, v, ks=ks, tr=tr: union(I, st, x, v, ks, tr)
        if name in ("_intersection", "_saturation_intersection"): sp = lambda I, st, x, v, ks=ks, tr=tr: inter(I, st, x, v, ks, tr)
        if sp is None: continue
        fields = [n for n, k in ks.items() if k == "sdd" or n == "valuation"]
        for x in (O_, I_):
            for fv in (("O", "I") if fields else ("",)):
                def make(I, f=f, x=x, fv=fv, fields=fields):
                    st = St()
                    I.under = (f.id,)
                    args, this = start(I, f, st, T("set", x, "?" if not fields else "s", I.fresh(st)))
                    if fields: st.store[this] = sets(I, st, st.store[this], {n: T("set", fv, "v" if n == "valuation" else "s", I.fresh(st)) for n in fields})
                    return [(st, args, this)]
                def judge(I, st, kind, v, sp=sp, lev=name != "_cons"):
                    if kind != "ret" or v is None or not isset(v): return None, "the result is not described by the domain: %s %s" % (kind, show(v)[:80])
                    e = levels(I, st) if lev else None
                    if e: return False, e
                    return sp(I, st, st.store[T("lg", "x")], v)
                cs = Case("definition", f, "%s on %s%s" % (name, x, ", operand " + fv if fv else ""), make, judge=judge, interp=Ops, under=(f.id,)); cases.append(cs)
    return cases

class Ind(Hom):
    """applications with the operation that the user's operation gave for a valuation; only the arc of the value is named"""
    def record(self, st, h, o, x, r):
        n = st.store.get(T("lg", "node"))
        if h.op == "indh" and len(h.a) == 2 and n is not None and isset(h.a[1]) and isset(x):
            if not (tagof(x) is tagof(n.a[3]) and sym(x) == sym(n.a[3])): x = T("set", sym(x), "s", OT); r = SET(I_ if sym(r) == I_ else O_, "s", OT)
            if h.a[1] is not n.a[2]: r = SET(I_ if sym(r) == I_ else O_, "s", OT)
        a = self.apps(st)
        n = T("ap", h, o, x, r)
        if n not in a: st.store[APPS] = T("apps", *sorted(a + (n,), key=lambda t: repr(self.erase(t, self.em))))
    def hcall(self, fn, obj, vs, st, fr, line):
        if fn.name == "operator()" and obj is not None and (fn.qn.startswith("sdd::hom::inductive_base::") or fn.qn.startswith("sdd::hom::inductive_derived::")) and fr is not None:
            return [(st, T("indh", *[unm(self.clean(self.rv(st, v))) for v in vs]))]
        return super().hcall(fn, obj, vs, st, fr, line)

    def canon(self, st, drop=()):
        s = super().canon(st, drop)
        # what was found about the operation of one arc says nothing about that of the next
        s.facts = {k: v for k, v in s.facts.items() if not any(t.op == "set" and tagof(t) in (PTAG, QTAG) for t in subterms(k))}
        return s

def inductive(ctx):
    p = ctx.prog
    fs = [f for f in p.find("sdd::hom::_inductive::evaluation::operator()") if f.body is not None and p.type(f.params[0].get("t")).replace("const ", "").startswith("sdd::node<")]
    if not fs: raise Vanished("evaluation of user operations on nodes")
    cases = []
    for f in (fs if ctx.tier == "thorough" else fs[:2]):
        for k in ("Ia", "Oa", "On"):
            def make(I, f=f, k=k):
                st = St()
                n = homcases.node_arg(I, st, k)
                args = homcases.argsfor(I, f, st, n)
                this = T("lg", "this")
                st.store[this] = T("obj", f.klass.qn, (("order_", ORDER), ("sdd_", n), ("cxt_", T("ctxt"))))
                return [(st, args, this)]
            def judge(I, st, kind, v, k=k):
                if kind != "ret" or v is None or not isset(v): return None, "the result is not described by the domain: %s" % show(v)[:80]
                node = st.store[T("lg", "node")]
                main = None
                for a in I.apps(st):
                    hh, o, x = a.a[0], a.a[1], a.a[2]
                    if hh.op != "indh": return False, "the operation applied to the successors is not the one the user's operation gives"
                    if hh.a[0] is not ORDER: return False, "the user's operation is asked at the level %s" % show(hh.a[0])
                    if o is not T("om", "next", ORDER): return False, "the successors are handled at the level %s" % show(o)
                    val = hh.a[1]
                    if not isset(val) or not isset(x) or sort(x) not in ("s", "sn"): return None, "applied to %s with %s" % (show(x)[:60], show(val)[:60])
                    if val is node.a[2]:
                        if tagof(x) is not tagof(node.a[3]): return False, "the operation given for the valuation of an arc is applied to the successor of another"
                        main = a
                    elif tagof(x) is tagof(node.a[3]) or sym(x) != (I_ if tagof(val) is PTAG else O_): return False, "the operation given for the valuation of an arc is applied to the successor of another"
                if k != "On" and main is None: return False, "the user's operation is not applied to every arc"
                hit = any(sym(a.a[3]) == I_ for a in I.apps(st))
                return (sym(v) == I_) == hit, "the result is not the union of what the arcs give"
            cs = Case("inductive", f, "%s, node %s" % ("hierarchical" if "SDD<" in p.type(f.params[0].get("t")) else "flat", k), make, judge=judge, interp=Ind, marked=True); cs.cost = 20; cases.append(cs)
    return cases

def entry(ctx):
    """how an application gets to the code of its kind"""
    p = ctx.prog
    isop = lambda g: g.qn == "sdd::homomorphism::operator()"
    pt = lambda f, i: strip(p.type(f.params[i].get("t"))).replace("&", "").strip()
    nm = lambda f, i: IN(f.params[i]["n"])
    def strm(t): return t.a[0] if t.op == "moved" else t
    quick = lambda g: g.qn in ("sdd::homomorphism::skip", "sdd::homomorphism::selector") or g.qn.startswith("sdd::order::")
    def go(f):
        w = "%s(%s)" % (site(f), ", ".join(pt(f, i).split("::")[-1] for i in range(len(f.params))))
        I, outs = ctx.run(f, prims=visits.PRIMS, policy=lambda g: "prim" if (isop(g) and g.id != f.id) or g.qn in ("sdd::mem::cache::operator()", "sdd::id", "sdd::zero", "sdd::one", "sdd::SDD::empty") or quick(g) else None)
        o_ = [nm(f, i) for i in range(len(f.params)) if pt(f, i) == "sdd::order"][0]
        x_ = [nm(f, i) for i in range(len(f.params)) if pt(f, i) == "sdd::SDD"][0]
        this = IN("*this")
        for o in outs:
            if o.kind != "ret": ctx.ob("entry", w, None, "raises"); continue
            v = strm(o.val)
            if v is x_:
                isid = any(b and k.op == "eq" and "id" in show(k) and "*this" in show(k) for k, b in o.st.facts.items())
                mt = any(b and (("empty" in show(k) or "zero" in show(k)) and x_.a[0] in show(k)) for k, b in o.st.facts.items())
                ctx.ob("entry", w, True if isid or mt else False, "gives the operand back though neither the operation is the identity nor the operand empty (%s)" % showfacts(o.st.facts)[:160])
                continue
            if v.op == "call" and str(v.a[0]).startswith("sdd::homomorphism::operator()"):
                args = [strm(a) for a in v.a[1:]]
                ctx.ob("entry", w, True if this in args and o_ in args and x_ in args else False, "applies %s" % show(v)[:160]); continue
            if v.op == "call" and str(v.a[0]).startswith("sdd::mem::cache::operator()"):
                ch = strm(v.a[-1])
                fs = dict(ch.a[1]) if ch.op == "obj" else {}
                fs = {k: strm(t) for k, t in fs.items()}
                if set(fs) != {"ord", "hom", "sdd"}: ctx.ob("entry", w, None, "evaluates %s" % show(ch)[:160]); continue
                ctx.ob("entry", w, fs == {"ord": o_, "hom": this, "sdd": x_}, "evaluates %s" % show(ch)[:200]); continue
            ctx.ob("entry", w, None, "gives %s" % show(v)[:160])
    ctx.each("entry", [f for f in p.find("sdd::homomorphism::operator()") if f.body is not None], go)
    def cached(f):
        w = site(f) + f.conf[:40]
        I, outs = ctx.run(f, prims=visits.PRIMS, policy=lambda g: "prim" if quick(g) else None)
        fl = lambda n: T("fld", IN("*this"), n)
        for o in outs:
            v = strm(o.val)
            if o.kind != "ret" or v.op != "visit": ctx.ob("entry", w, None, "not one visit: " + show(v)[:120]); continue
            vis, a = v.a[0], [strm(x) for x in v.a[1:]]
            if "evaluation" not in show(vis): ctx.ob("entry", w, None, "visited by " + show(vis)[:80]); continue
            want = [fl("hom"), fl("sdd"), fl("hom"), fl("sdd"), IN(f.params[0]["n"]), fl("ord")]
            ctx.ob("entry", w, a == want if len(a) == 6 else None, "evaluated with %s" % ", ".join(show(x)[:30] for x in a))
    ctx.each("entry", [f for f in p.find("sdd::hom::cached_homomorphism::operator()") if f.body is not None], cached)
    def visiting(f):
        """local, function and user operations: the visitor gets the operand, the order and the operation"""
        w = site(f) + f.conf[:40]
        I, outs = ctx.run(f, prims=visits.PRIMS, policy=lambda g: "prim" if quick(g) else None)
        o_, x_ = nm(f, 1), nm(f, 2)
        _, ks, _ = hobj(p, f.klass)
        hf = [n for n, k in ks.items() if k in ("hom", "fun")]
        for o in outs:
            v = strm(o.val)
            if o.kind != "ret" or v.op != "visit": ctx.ob("entry", w, None, "not one visit: " + show(v)[:120]); continue
            if strm(v.a[1]) is not x_: ctx.ob("entry", w, False, "visits %s" % show(v.a[1])[:80]); continue
            ts = set(subterms(v))
            fl = T("fld", IN("*this"), hf[0]) if hf else None
            if fl is not None and fl not in ts: ctx.ob("entry", w, None, "the operation is not handed to the evaluation: %s" % show(v)[:160]); continue
            ords = [strm(t) for t in list(v.a[2:]) + ([y for _, y in v.a[0].a[1]] if v.a[0].op == "obj" else []) if strm(t) is o_ or (isinstance(t, T) and o_ in set(subterms(t)))]
            ctx.ob("entry", w, True if ords and all(t is o_ for t in ords) else False if ords else None, "the evaluation gets the level %s" % ", ".join(show(t)[:60] for t in ords))
    ctx.each("entry", [f for q in ("_local", "_function", "_inductive") for f in p.find("sdd::hom::%s::operator()" % q) if f.body is not None and len(f.params) == 3], visiting)
    def one(f):
        w = site(f) + " on the terminal " + f.conf[:60]
        I, outs = ctx.run(f, policy=lambda g: "prim" if g.id != f.id and g.name == "operator()" else None)
        for o in outs:
            v = strm(o.val)
            if v is nm(f, 3) and o.kind == "ret" and "hom::_" in w and not any(b and "id" in show(k) for k, b in o.st.facts.items()):
                ctx.ob("entry", w, "<sdd::hom::_identity<" in w, "gives the operand back without applying the operation to it (%s)" % showfacts(o.st.facts)[:100]); continue
            if o.kind != "ret" or v.op != "call": ctx.ob("entry", w, None, "gives " + show(v)[:100]); continue
            a = [strm(x) for x in v.a[1:]]
            ctx.ob("entry", w, a == [nm(f, 0), nm(f, 4), nm(f, 5), nm(f, 3)], "applied as %s" % show(v)[:160])
    fs = [f for f in p.find("sdd::hom::evaluation::operator()") if f.body is not None and "one_terminal" in p.type(f.params[1].get("t"))]
    ctx.each("entry", fs, one)

def check(ctx):
    ctx.rule("definition", "for an arbitrary assignment, the result of the operation contains it if and only if its definition says so about the results of its operands, each applied to the right diagram at the right level")
    ctx.rule("fixpoint", "a fixpoint is returned only when each of its operands is known to leave it unchanged")
    ctx.rule("local", "the result has an assignment if and only if the image of the valuation of some arc with the rest of the assignment in its successor has it; the operation is applied at the nested level")
    ctx.rule("function", "the result has an assignment if and only if the image of the valuation of some arc with the rest of the assignment in its successor has it")
    ctx.rule("inductive", "the operation that the user's one gives for the valuation of an arc is applied, at the next level, to the successor of that arc, for every arc, and the results are united")
    ctx.rule("skipped level", "on a level it skips, an operation is applied to every successor with the order moved to the next level and the values stay; otherwise it is applied to the diagram itself")
    ctx.rule("entry", "an application evaluates that operation on that diagram at that level; only the identity and the empty diagram are shortcuts")
    def on(c, res, exc, why, bad):
        w = "%s, %s" % (site(c.fn), c.name)
        if exc is not None: ctx.ob(c.rule, w, None, "not decided: " + exc); return
        for imp, rel, line, msg in bad:
            if "level" in msg: ctx.ob(c.rule, w, None if imp else False, msg)
        if not res: ctx.ob(c.rule, w, None, "no result")
        for kind, ok, msg, imp in res: ctx.ob(c.rule, w, ok if ok is not False or not imp else None, msg + (" (imprecise: %s)" % "; ".join(why) if imp else ""))
    cs = []
    for part in (whole, fixpoints, inductive, homcases.rebuilders): ctx.part(part.__name__, lambda: cs.extend(part(ctx)))
    run_cases(ctx, cs, on)
    ctx.part("entry", lambda: entry(ctx))
    ctx.need("definition", 20); ctx.need("fixpoint", 2); ctx.need("inductive", 3); ctx.need("local", 3); ctx.need("function", 3); ctx.need("entry", 10)
