"""visit() as a primitive: a visitor is applied to the object viewed as each of the kinds it has an overload for (which
overload belongs to which kind is C18)."""
from engine import *
def visit(I, fn, obj, vs, st, fr, line):
    f = I.rv(st, vs[0])
    n = 2 if fn.name == "binary_visit" else 1
    if f.op == "closure":
        ops, env, this = I.closures[f]
        r = []
        for i in ops:
            g = I.p.fns[i]
            if g.body is None or len(g.params or []) != len(vs) - 1: continue
            s2 = st.copy()
            av = [LV(T("tmp", T("as", I.p.type(q["t"]), I.rv(s2, v)))) if j < n else v for j, (q, v) in enumerate(zip(g.params, vs[1:]))]
            r.extend(I.call_closure(g, f, av, s2, fr, line))
        if r: return r
    t = T("visit", f, *[I.rv(st, v) for v in vs[1:]])
    I.emit(st, "call", fn.qn, fn, (f,) + tuple(I.rv(st, v) for v in vs[1:]), (), line, fr, res=t)
    return [(st, t)]
PRIMS = {"sdd::visit": visit, "sdd::binary_visit": visit}
