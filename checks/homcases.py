"""Cases of the one-point analysis for the code that rebuilds a node while applying an operation."""
from homdd import *
from ddcases import *
from p_c04 import quickpick

def node_arg(I, st, k):
    """a node of kind k whose arc for the value has a successor that is named even when it does not hold the rest"""
    n = I.operand(st, k)
    v, s = n.a[2], n.a[3]
    s = T("set", sym(s), "sn" if I.marked else "s", MTAG if sym(s) == O_ else tagof(s))
    return T("node", n.a[0], n.a[1], v, s, n.a[4])
def put(st, name, v):
    l = T("lg", name)
    st.store[l] = v
    return LV(l)
def argsfor(I, fn, st, node):
    r = []
    for i, q in enumerate(fn.params):
        t = I.p.type(q.get("t"))
        if "node<" in strip_(t): r.append(put(st, "node", node))
        elif t.replace("const ", "").startswith("sdd::SDD<"): r.append(put(st, "x", node))
        else: r.append(None)
    return r
def strip_(t): return t.split("<")[0] + "<" if "<" in t else t

class Brief(Hom):
    """results of applications to other arcs are not recorded"""
    def record(self, st, h, o, x, r):
        if tagof(x).op == "#" or tagof(x) in self.keeptags or x.op == "node": return super().record(st, h, o, x, r)
        super().record(st, h, o, T("set", O_, sort(x), OT), SET(O_, "s", OT))

def skipping(ctx):
    """evaluation of an operation on a node: passes a level that the operation skips"""
    p = ctx.prog
    fs = [f for f in p.find("sdd::hom::evaluation::operator()") if any("::node<" in p.type(x.get("t")).split("<")[0] + "<" for x in f.params) and f.body is not None]
    if not fs: raise Vanished("evaluation of an operation on a node")
    if ctx.tier != "thorough":
        d = {}
        for f in fs: d[(f.rel, f.line, "SDD<" in p.type(f.params[1].get("t")))] = f
        fs = list(d.values())
    cases = []
    for f in fs:
        hp = [i for i, q in enumerate(f.params) if p.type(q.get("t")).replace("const ", "").startswith("sdd::homomorphism<")]
        names = [q.get("n") for q in f.params]
        for k in ("Ia", "Oa", "On"):
            def make(I, f=f, k=k):
                st = St()
                n = node_arg(I, st, k)
                return [(st, argsfor(I, f, st, n), None)]
            def judge(I, st, kind, v, k=k):
                if kind != "ret": return None, "raises"
                if v is None or not isset(v): return None, "the result is not described by the domain: %s" % show(v)[:80]
                aps = I.apps(st)
                skipped = [x for x, b in st.facts.items() if x.op == "in" and x.a[0] == "skip" and b is True]
                if not skipped:
                    # evaluated at this level: the operation itself, on the whole diagram
                    if len(aps) == 1 and aps[0].a[2].op == "node":
                        return v is aps[0].a[3] or sym(v) == sym(aps[0].a[3]), "the result of the operation at this level is not returned"
                    return (None if not aps else False), "an operation that does not skip the level is not applied to the diagram at this level"
                if any(a.a[2].op == "node" for a in aps): return None, "applied at a level that is skipped"
                for a in aps:
                    if a.a[1].op != "om" or a.a[1].a[0] != "next": return False, "the successors are not given to the operation at the next level but at %s" % show(a.a[1])
                    if sort(a.a[2]) != "s": return False, "the operation is applied to something else than a successor"
                if len({a.a[0] for a in aps}) > 1: return False, "different operations are applied to the successors"
                main = [a for a in aps if tagof(a.a[2]) is MTAG or (tagof(a.a[2]).op == "#" and k == "Ia" and a.a[2] is I_main(st))]
                if k == "On": return sym(v) != I_, "a value without arc gets one"
                if not main: return False, "the operation is not applied to every successor of a level that is skipped"
                return (sym(v) == I_) == (sym(main[0].a[3]) == I_), "the arcs of the result do not lead to the image of the successor of the arc"
            c = Case("skipped level", f, "%s, %s node %s" % (hname(p, f), "hierarchical" if "SDD<" in p.type(f.params[1].get("t")) else "flat", k), make, judge=judge, interp=Brief); c.cost = 20
            cases.append(c)
    return cases
def hname(p, f):
    t = p.type(f.params[0].get("t"))
    return strip(t).split("::")[-1]
def I_main(st):
    n = st.store.get(T("lg", "node"))
    return n.a[3]

def arcwise(ctx, qn, rule, okorder):
    """applies an operation to the valuations of the arcs"""
    p = ctx.prog
    fs = [f for f in p.find(qn) if f.body is not None and f.params and p.type(f.params[0].get("t")).replace("const ", "").startswith("sdd::node<")
          and any(x.get("k") == "call" for x in walk(f.body)) and "noreturn" not in str(f.body)[:0]]
    fs = [f for f in fs if not all(x.get("k") != "ret" for x in walk(f.body))]
    if not fs: raise Vanished(qn)
    cases = []
    for f in quickpick(ctx, fs):
        for k in ("Ia", "Oa", "On"):
            def make(I, f=f, k=k):
                st = St()
                n = node_arg(I, st, k)
                return [(st, argsfor(I, f, st, n), None)]
            def judge(I, st, kind, v, k=k):
                if kind != "ret": return None, "raises"
                if v is None or not isset(v): return None, "the result is not described by the domain: %s" % show(v)[:80]
                aps = I.apps(st)
                for a in aps:
                    if a.a[2].op == "node" or sort(a.a[2]) != "v": return False, "the operation is applied to something else than a valuation"
                    m = okorder(a)
                    if m: return False, m
                if len({a.a[0] for a in aps}) > 1: return False, "different operations are applied to the valuations"
                node = st.store[T("lg", "node")]
                main = [a for a in aps if a.a[2] is node.a[2]]
                if k != "On" and not main: return False, "the operation is not applied to the valuation of every arc"
                hit = any(sym(a.a[3]) == I_ and (tagof(a.a[2]) is PTAG or (k == "Ia" and a.a[2] is node.a[2])) for a in aps)
                if hit and sym(v) != I_: return False, "an image of an arc is lost"
                if not hit and sym(v) == I_: return False, "the result contains an assignment that no arc has as image"
                return True, ""
            c = Case(rule, f, "node %s" % k, make, judge=judge, interp=Hom, marked=True); c.cost = 30
            cases.append(c)
    return cases
def nested(a): return None if a.a[1].op == "om" and a.a[1].a[0] == "nested" else "the valuations are not given to the operation at the nested level but at %s" % show(a.a[1])
def rebuilders(ctx):
    return skipping(ctx) + arcwise(ctx, "sdd::hom::_local::evaluation::operator()", "local", nested) + arcwise(ctx, "sdd::hom::_function::evaluation::operator()", "function", lambda a: None)
