"""C17: errors reach the caller: a may-raise closure over the call graph, and what handlers do with what they catch."""
from common import *

def check(ctx):
    ctx.rule("promise", "a function that promises not to throw reaches no throw statement of the library and no operation supplied by the user")
    ctx.rule("handler", "an error that is caught is raised again, as itself or as another one, on every path of the handler")
    p = ctx.prog
    N = len(p.fns)
    lib = [f for f in p.fns if f.body is not None and f.rel.startswith("sdd/")]
    user = lambda f: f.qn.startswith("vw::")
    over = {}
    for f in p.fns:
        if f.virtual and f.body is not None: over.setdefault((f.name, len(f.params or ())), []).append(f.id)
    derived = {}
    for i, c in enumerate(p.classes):
        for b in (getattr(c, "bases", None) or ()):
            b = b if isinstance(b, int) else b.get("c", b.get("cls")) if isinstance(b, dict) else None
            if b is not None: derived.setdefault(b, set()).add(i)
    def subs(c):
        r, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in r: continue
            r.add(x); todo += derived.get(x, ())
        return r
    edges, sources = {}, {}
    nodes = 0
    for f in lib:
        es = edges.setdefault(f.id, {})
        caught = set()
        for n in walk(f.body):
            if n.get("k") == "try": caught.update(id(x) for x in walk(n.get("b") or n.get("s") or {}))
        for n in list(walk(f.body)) + list(walk(f.inits or [])):
            k = n.get("k")
            if id(n) in caught: continue             # what is raised there meets a handler, which the other rule decides
            if k == "throw": sources.setdefault(f.id, ("throws", n.get("l", f.line)))
            if k == "lambda":
                for g in n.get("ops") or (): es.setdefault(g, n.get("l", f.line))
            g = n.get("f")
            if isinstance(g, int) and not isinstance(g, bool) and 0 <= g < N and k in ("call", "mcall", "opcall", "ctor", "new", "fref", "mref"):
                nodes += 1
                h = p.fns[g]
                if user(h) and not h.nothrow and h.kind != "ctor" and h.name in ("operator()",): sources.setdefault(f.id, ("calls the user's %s" % h.name, n.get("l", f.line)))
                es.setdefault(g, n.get("l", f.line))
                if h.virtual:
                    sub = subs(h.cls) if derived else None
                    for v in over.get((h.name, len(h.params or ())), ()):
                        if sub is None or p.fns[v].cls in sub: es.setdefault(v, n.get("l", f.line))
    rev = {}
    for c, es in edges.items():
        for g in es: rev.setdefault(g, []).append(c)
    why, todo = dict(sources), list(sources)
    while todo:
        g = todo.pop()
        if p.fns[g].nothrow: continue                # reported there, once
        for c in rev.get(g, ()):
            if c not in why: why[c] = (g, edges[c][g]); todo.append(c)
    ctx.notes.append("%d functions of the library, %d resolved calls, %d functions may raise, %d promise not to" % (len(lib), nodes, len(why), sum(1 for f in lib if f.nothrow)))
    reach = {f.qn for f in lib if f.id in why}
    for q in ("sdd::dd::check_compatibility", "sdd::order::node"):
        if q not in reach: ctx.ob("promise", q, None, "is not seen to raise: the call graph is incomplete")
    for f in lib:
        if not f.nothrow or f.kind == "dtor" and f.implicit: continue
        w = "%s %s" % (site(f), (f.klass.ta if f.klass is not None and f.klass.ta else "") or "")
        if f.id not in why: ctx.ob("promise", w, True); continue
        path, x = [], f.id
        while True:
            r = why[x]
            path.append("%s:%s" % (p.fns[x].rel, r[1]))
            if isinstance(r[0], str): path.append(r[0]); break
            x = r[0]
        ctx.analysed(f)
        ctx.ob("promise", w, False, "promises not to throw but may: " + " -> ".join(path))
    for f in lib:
        for n in walk(f.body):
            if n.get("k") == "try":
                for h in n.get("h") or n.get("hs") or n.get("handlers") or ():
                    body = h.get("b") or h.get("s") or h.get("body")
                    ctx.analysed(f)
                    r = ends(body)
                    ctx.ob("handler", "%s:%s" % (site(f), h.get("l", n.get("l"))), r, "an error is caught and dropped: the handler can end without raising")
    ctx.need("promise", 50)

def ends(s):
    """does every path of this statement raise: True / False / None"""
    if s is None: return False
    k = s.get("k")
    if k == "block":
        for x in s.get("b") or s.get("ss") or s.get("s") or ():
            r = ends(x)
            if r is not False: return r
            if x.get("k") in ("ret", "break", "continue"): return False
        return False
    if k == "expr":
        e = s.get("e") or {}
        while e.get("k") in ("icast", "cast", "paren"): e = e.get("e") or e.get("b") or {}
        if e.get("k") == "throw": return True
        return None if e.get("k") in ("call", "mcall") else False      # it may be a helper that raises
    if k == "if":
        a, b = ends(s.get("t")), ends(s.get("e")) if s.get("e") else False
        return True if a and b else None if None in (a, b) else False
    if k in ("for", "while", "do", "rfor", "switch", "try"): return None
    return False
