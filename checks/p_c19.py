"""C19 hash table: linking, unlinking, growth and clearing keep exactly the elements they should."""
from common import *

HT = "sdd::mem::hash_table"

def ident(I, st, V):
    """the cell a Data lvalue designates: its pointer; anything else: its value"""
    if isinstance(V, LV) and V.loc.op == "ld": return V.loc.a[0]
    return I.rv(st, V)

def p_hash(I, fn, obj, vs, st, fr, line): return [(st, T("H", ident(I, st, vs[0])))]
def p_eq(I, fn, obj, vs, st, fr, line):
    a, b = sorted([ident(I, st, v) for v in vs], key=repr)
    return [(st, T("match", a, b))]
PRIMS = {"std::hash::operator()": p_hash, "sdd::mem::operator==": p_eq}

class H(Interp):
    """the user's equality predicate compares two cells; the disposer ends the life of its argument"""
    def call_value(self, f, vs, st, fr, e):
        if f is IN("eq"):
            a, b = sorted([ident(self, st, v) for v in vs], key=repr)
            return [(st, T("match", a, b))]
        if f is IN("disposer"):
            c = self.rv(st, vs[0])
            self.emit(st, "dispose", "disposer", None, (c,), (), e.get("l") if isinstance(e, dict) else e, fr)
            self.write(st, T("ld", c), T("dead", c))
            return [(st, VOID)]
        return super().call_value(f, vs, st, fr, e)
    def call(self, fn, obj, vs, st, fr, line):
        if obj is not None and fn.name == "operator()" and self.rv(st, obj) in (IN("eq"), IN("disposer")): return self.call_value(self.rv(st, obj), vs, st, fr, line)
        return super().call(fn, obj, vs, st, fr, line)

def nextloc(c): return T("lf", T("lf", T("ld", c), "hook"), "next")
def nextval(c): return T("fld", T("fld", T("deref", c), "hook"), "next")
def isnext(l): return l.op == "lf" and l.a[1] == "next" and l.a[0].op == "lf" and l.a[0].a[0].op == "ld"

def recs(eff):
    return [e for e in eff if isinstance(e, LoopRec)]

class Chain:
    """relational facts about a traversal: which phi is the cursor, which its predecessor or link"""
    def __init__(self, I, eff):
        self.cur, self.prev, self.link = {}, {}, {}     # cursor phi -> start link location ; prev phi -> cursor phi ; link phi -> start location
        for r in recs(eff):
            for v, ph in r.phis.items():
                # cursor: starts at the content of a link, moves to its own next
                if ph["back"] and all(b is nextval(v) or self.atloc(I, r, b, nextloc(v)) for b, _ in ph["back"]):
                    l = self.slot(ph["init"])
                    if l is not None: self.cur[v] = l
                # pointer to link: starts at a link, moves to the next link of what it points to
                if ph["init"].op in ("addr", "padd", "fld", "in") and ph["back"] and all(b is T("addr", nextloc(T("deref", v))) for b, _ in ph["back"]):
                    self.link[v] = ph["init"].a[0] if ph["init"].op == "addr" else T("ld", ph["init"])
            for v, ph in r.phis.items():
                if ph["init"] is NULL and ph["back"]:
                    for c in self.cur:
                        if c in r.phis and all(b is c for b, _ in ph["back"]): self.prev[v] = c
    def atloc(self, I, r, b, loc):
        """b is the content of loc at the loop head"""
        return b.op == "phi" and b in r.phis and r.phis[b]["loc"] is loc
    def slot(self, t):
        if t.op == "deref": return T("ld", t.a[0])
        if t.op == "phi" : return None
        if t.op == "fld" and t.a[1] == "next": return None
        return None
    def holds(self, I, st, L, init):
        """the term that link L held at the beginning, named as a cursor if possible"""
        s = set()
        d = I.default(St(), L)
        s.add(d)
        for c, l in self.cur.items():
            if l is L and (I.known(st.facts, T("eq", d, NULL)) is True): s.add(NULL)
        for p, c in self.prev.items():
            if isnext(L) and L.a[0].a[0].a[0] is p: s.add(c)
            if L is self.cur.get(c) and I.known(st.facts, T("eq", p, NULL)) is True: s.add(c)
        for x in list(s):
            if x is not NULL and I.known(st.facts, T("eq", x, NULL)) is True: s.add(NULL)
        return s

def links(eff):
    """writes to link locations (slots or next fields), last value per location, in order"""
    out = {}
    for e in eff:
        if isinstance(e, LoopRec): continue
        if e.kind == "write":
            l = e.locs[0]
            if isnext(l) or l.op == "ld": out[l] = e.args[0]
    return out

def linked(ctx, rule, w, I, o_st, eff, x, what, slotok):
    """x has been inserted in a chain: one link L outside x now designates x, and x.next designates what L held"""
    ch = Chain(I, eff)
    wr = links(eff)
    outer = [(l, v) for l, v in wr.items() if l is not nextloc(x)]
    into = [(l, v) for l, v in outer if v is x]
    if len(into) != 1 or len(outer) != 1:
        return ctx.ob(rule, w, False if not into or all(v.op in ("in", "phi", "null", "deref", "fld") for l, v in outer) else None, "%s: the new element is not linked into exactly one place of a chain (%s)" % (what, [(show(l), show(v)) for l, v in outer]))
    L = into[0][0]
    nx = I.read(o_st, nextloc(x))
    old = ch.holds(I, o_st, L, None)
    phiold = [v for r in recs(eff) for v, ph in r.phis.items() if ph["loc"] is L]
    old |= set(phiold)
    for r in allrecs(I): 
        for v, ph in r.items():
            if ph["loc"] is L: old.add(v)
    ok = nx in old
    if not ok and NULL in old and nx in (nextval(x),): ok = True     # a fresh element's next is null
    ctx.ob(rule, w, ok, "%s: the elements after the insertion point are lost: next becomes %s where the link held %s" % (what, show(nx), [show(t) for t in old]))
    ctx.ob(rule, w, slotok(L, ch), "%s: the element is linked in a chain that is not the one of its hash (%s)" % (what, show(L)))

def allrecs(I):
    yield I.phis

def idx_of(L):
    """(array, index) of a slot location"""
    if L.op == "ld" and L.a[0].op == "padd": return L.a[0].a[0], L.a[0].a[1]
    return None, None

def start_slot(L, ch):
    """slot at which the chain containing link L starts"""
    if L.op == "ld" and L.a[0].op == "padd": return L
    if L.op == "ld" and L.a[0].op == "phi": return ch.link.get(L.a[0])
    if isnext(L):
        c = L.a[0].a[0].a[0]
        c = ch.prev.get(c, c)
        return ch.cur.get(c)
    return L

def shape_idx(i, h, n):
    """index as a function of hash and bucket count"""
    return subst(i, {h: T("h"), n: T("n")})

def okidx(i):
    h, n = T("h"), T("n")
    ok = {T("bin", "&", h, T("add", n, INT(-1))), T("bin", "&", T("add", n, INT(-1)), h), T("bin", "%", h, n)}
    return i in ok

def search(ctx, rule, w, I, o, x, found):
    """a lookup visits the chain until an equal element or its end"""
    n = 0
    for r in recs(o.eff):
        for v, ph in r.phis.items():
            ms = [k for it in r.iters for k in it.facts if k.op == "match"]
            if not ms: break
            for it in r.iters:
                if it.end == "end":
                    k = [m for m in it.facts if m.op == "match"]
                    if not k: ctx.ob(rule, w, None, "an iteration without comparison"); continue
                    ctx.ob(rule, w, all(it.facts[m] is False for m in k) if k else None, "the search goes on past an equal element")
            n += 1
            break
    return n

def check(ctx):
    p = ctx.prog
    ctx.rule("lookup", "an element is reported found only after comparing equal to it, and not found only at the end of the chain of its hash, every element before having compared different")
    ctx.rule("link", "an insertion links the new element and keeps every element that was in the chain")
    ctx.rule("unlink", "a removal takes out exactly the equal element and keeps the rest of its chain")
    ctx.rule("size", "the recorded size changes by one per insertion and removal, and not otherwise")
    ctx.rule("index", "all operations map a hash to the same chain")
    ctx.rule("growth", "growing moves every element of every chain to the chain of its hash in the new array")
    ctx.rule("dispose", "clearing disposes of each element once, reads it only before, and leaves every chain empty and the size zero")
    shapes = {}
    done = set()
    inst = [c for c in p.cls(HT) if p.methods_of(c)]
    quick = ctx.tier == "quick"
    for c in inst:
        kind = c.ta.rstrip("> ").endswith("true")
        if quick and kind in done: continue
        done.add(kind)
        M = {}
        for f in p.methods_of(c):
            if f.body is not None: M.setdefault(f.name, []).append(f)
        for f in M.get("insert", [])[:1]: ctx.each("link", [f], lambda f: t_insert(ctx, c, f, shapes))
        for f in M.get("insert_check", [])[:1]: ctx.each("lookup", [f], lambda f: t_check(ctx, c, f, shapes))
        for f in M.get("insert_commit", [])[:1]: ctx.each("link", [f], lambda f: t_commit(ctx, c, f))
        for f in M.get("erase", [])[:1]: ctx.each("unlink", [f], lambda f: t_erase(ctx, c, f, shapes))
        for f in M.get("rehash", [])[:1]: ctx.each("growth", [f], lambda f: t_rehash(ctx, c, f, shapes))
        for f in M.get("clear_and_dispose", [])[:1]: ctx.each("dispose", [f], lambda f: t_clear(ctx, c, f))
        for f in M.get("(ctor)", []):
            if f.ck not in ("copy", "move"): ctx.each("size", [f], lambda f: t_ctor(ctx, c, f))
        for f in M.get("size", []):
            I, outs = run(ctx, f)
            for o in outs: ctx.ob("size", site(f), I.rv(o.st, o.val) is FS(), "size() returns " + show(o.val))
    sh = {s for s in shapes.values()}
    for w, s in shapes.items():
        ctx.ob("index", w, True if len(sh) == 1 and okidx(s) else (False if len(sh) > 1 else None), "index functions differ: %s" % {k: show(v) for k, v in shapes.items()})
    ctx.need("link", 2)

def FS(): return T("fld", IN("*this"), "size_")
SIZE = T("lf", T("ld", IN("this")), "size_")

def run(ctx, f, args=None, prim=()):
    I = H(ctx.prog, prims=PRIMS, policy=lambda g: "prim" if g.name in prim and g.mine else None)
    ctx.analysed(f)
    outs = I.run(f, args=args)
    for u in I.unknown: ctx.notes.append("no transfer function for " + u)
    return I, outs

def nb(): return T("fld", IN("*this"), "nb_buckets_")

def slotcheck(ctx, w, shapes, key, h, n):
    def ok(L, ch):
        s = start_slot(L, ch)
        if s is None: return None
        b, i = idx_of(s)
        if i is None: return None
        t = shape_idx(i, h, n)
        shapes.setdefault(key, t)
        return True if okidx(t) else None
    return ok

def t_insert(ctx, c, f, shapes):
    w = site(f)
    I, outs = run(ctx, f, prim=("rehash",))
    x = IN(f.params[0]["n"])
    for o in outs:
        if o.kind != "ret": continue
        v = I.rv(o.st, o.val)
        if v.op != "pair": ctx.ob("lookup", w, None, "result " + show(v)); continue
        first, ins = v.a
        search(ctx, "lookup", w, I, o, x, None)
        ms = [k for k, b in o.facts.items() if k.op == "match" and b]
        if ins is FALSE:
            ok = any(first in k.a and x in k.a for k in ms)
            ctx.ob("lookup", w, ok, "reports %s as equal to the element without having compared them equal" % show(first))
            ctx.ob("link", w, not links(o.eff), "an element that is already stored modifies a chain")
            ctx.ob("size", w, I.read(o.st, SIZE) is FS(), "finding an element changes the size")
        elif ins is TRUE:
            ctx.ob("lookup", w, first is x and not ms, "reports an insertion of %s" % show(first))
            ctx.ob("size", w, I.read(o.st, SIZE) is T("add", FS(), INT(1)), "an insertion makes the size %s" % show(I.read(o.st, SIZE)))
            linked(ctx, "link", w, I, o.st, o.eff, x, "insert", slotcheck(ctx, w, shapes, w, T("H", x), nb()))
            atend(ctx, w, I, o)
        else: ctx.ob("lookup", w, None, "result " + show(v))

def atend(ctx, w, I, o):
    ch = Chain(I, o.eff)
    if not ch.cur and not ch.link: ctx.ob("lookup", w, None, "no traversal recognised"); return
    ok = any(I.known(o.facts, T("eq", v, NULL)) is True for v in ch.cur) or any(I.known(o.facts, T("eq", T("deref", v), NULL)) is True for v in ch.link)
    ok = ok or any(I.known(o.facts, T("eq", nextval(v), NULL)) is True for v in ch.cur)
    early = [v for v in ch.cur if I.known(o.facts, T("eq", v, NULL)) is False]
    ctx.ob("lookup", w, True if ok else False if early else None, "reports absence before the end of the chain")

def t_check(ctx, c, f, shapes):
    w = site(f)
    I, outs = run(ctx, f)
    x = IN(f.params[0]["n"]); eqn = f.params[1]["n"]; cd = f.params[2]["n"]
    if eqn != "eq": I, outs = run(ctx, f, args=[None, IN("eq"), None])
    cls = [q for q in ctx.prog.classes if q.qn == HT + "::insert_commit_data"]
    fld = cls[0].fields[0]["n"] if cls and cls[0].fields else "bucket"
    for o in outs:
        v = I.rv(o.st, o.val)
        if v.op != "pair": ctx.ob("lookup", w, None, "result " + show(v)); continue
        first, ins = v.a
        search(ctx, "lookup", w, I, o, x, None)
        ms = [k for k, b in o.facts.items() if k.op == "match" and b]
        if ins is FALSE: ctx.ob("lookup", w, any(first in k.a and x in k.a for k in ms), "reports %s as equal without having compared it" % show(first))
        elif ins is TRUE:
            ctx.ob("lookup", w, not ms, "reports absence of an element that compared equal")
            atend(ctx, w, I, o)
        b = I.read(o.st, T("lf", T("lp", cd), fld))
        ch = Chain(I, o.eff)
        st0 = list(ch.cur.values()) + list(ch.link.values())
        if ins is TRUE:
            if b.op == "addr": bl = b.a[0]
            elif b.op == "padd": bl = T("ld", b)
            else: bl = None
            if st0 and bl is not None:
                ctx.ob("link", w, any(s is bl for s in st0), "the chain prepared for the insertion is not the one that was searched")
                a, i = idx_of(bl)
                if i is not None: shapes.setdefault(w, shape_idx(i, T("H", x), nb()))
            elif b.op in ("fld", "in"): ctx.ob("link", w, False, "the chain to insert into is not recorded")
            else: ctx.ob("link", w, None, "commit data " + show(b))
        ctx.ob("size", w, I.read(o.st, SIZE) is FS() and not links(o.eff), "a lookup modifies the table")

def t_commit(ctx, c, f):
    w = site(f)
    I, outs = run(ctx, f)
    x = IN(f.params[0]["n"])
    for o in outs:
        ctx.ob("size", w, I.read(o.st, SIZE) is T("add", FS(), INT(1)), "an insertion makes the size %s" % show(I.read(o.st, SIZE)))
        cd = T("fld", IN(f.params[1]["n"]), "bucket")
        def ok(L, ch):
            s = start_slot(L, ch)
            if s is None: return None
            return True if s.op == "ld" and any(y is IN(f.params[1]["n"]) for y in subterms(s.a[0])) else False
        linked(ctx, "link", w, I, o.st, o.eff, x, "insert_commit", ok)

def t_erase(ctx, c, f, shapes):
    w = site(f)
    I, outs = run(ctx, f)
    x = IN(f.params[0]["n"])
    some = False
    for o in outs:
        search(ctx, "lookup", w, I, o, x, None)
        ms = [k for k, b in o.facts.items() if (k.op == "match" and b and x in k.a) or (k.op == "eq" and b and x in k.a)]
        wr = links(o.eff)
        d = I.read(o.st, SIZE)
        if not ms:
            ctx.ob("unlink", w, not wr, "a chain is modified without an equal element having been found")
            ctx.ob("size", w, d is FS(), "the size changes although nothing is removed")
            continue
        some = True
        ctx.ob("size", w, d is T("add", FS(), INT(-1)), "a removal makes the size %s" % show(d))
        m = ms[0]
        cell = m.a[0] if m.a[1] is x else m.a[1]
        ch = Chain(I, o.eff)
        wo = {l: v for l, v in wr.items() if l is not nextloc(cell)}
        if len(wo) != 1:
            ctx.ob("unlink", w, False if all(v.op in ("in", "phi", "null", "deref", "fld") for v in wo.values()) else None, "the equal element is not taken out of its chain by one link (%s)" % [(show(l), show(v)) for l, v in wo.items()]); continue
        (L, v), = wo.items()
        old = ch.holds(I, o.st, L, None)
        if L.op == "ld" and L.a[0] in ch.link: old.add(T("deref", L.a[0]))
        ctx.ob("unlink", w, cell in old, "the link that is redirected held %s, not the equal element" % [show(t) for t in old])
        ctx.ob("unlink", w, v is nextval(cell), "the link that held the element now holds %s instead of the element's successor" % show(v))
        s = start_slot(L, ch)
        if s is not None:
            b, i = idx_of(s)
            if i is not None: shapes.setdefault(w, shape_idx(i, T("H", x), nb()))
    ctx.ob("unlink", w, some or None, "no path removes anything")

def t_rehash(ctx, c, f, shapes):
    w = site(f)
    I, outs = run(ctx, f)
    grown = False
    for o in outs:
        news = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind in ("new[]", "new")]
        if not news:
            ctx.ob("growth", w, not links(o.eff) and I.read(o.st, SIZE) is FS(), "the table is modified without growing"); continue
        grown = True
        N = news[0].res
        S = news[0].args[0] if news[0].kind == "new[]" else (news[0].args[0] if news[0].args else None)
        newb = I.read(o.st, T("lf", T("ld", IN("this")), "buckets_"))
        newn = I.read(o.st, T("lf", T("ld", IN("this")), "nb_buckets_"))
        ctx.ob("growth", w, newb is N if newb.op in ("newarr", "mknew", "fld") else None, "the new array is not installed")
        ctx.ob("growth", w, newn is S if S is not None else None, "the bucket count becomes %s for an array of %s" % (show(newn), show(S)))
        fills = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind == "std" and e.name in ("std::fill", "std::fill_n") and e.args[0] is N]
        init = any(n.get("k") == "new" and n.get("array") and n.get("i") for n in walk(f.body)) or news[0].kind == "new"
        if fills: ctx.ob("growth", w, fills[0].args[-1] is NULL and (fills[0].args[1] is S or (fills[0].args[1].op == "add" and set(fills[0].args[1].a) == {N, S}) or fills[0].args[1] is T("padd", N, S)), "the new array is not emptied over its whole length")
        elif not init and not any(isinstance(e, LoopRec) and any(x.kind == "write" and x.args[0] is NULL and root(x.locs[0]).op == "ld" and any(t is N for t in subterms(root(x.locs[0]))) for it in e.iters for x in it.eff if not isinstance(x, LoopRec)) for e in o.eff):
            ctx.ob("growth", w, False, "the new array is not initialised")
        out = [r for r in recs(o.eff) if any(isinstance(x, LoopRec) for it in r.iters for x in it.eff)]
        if len(out) != 1: ctx.ob("growth", w, None, "traversal of the old array not recognised"); continue
        R = out[0]
        if not covers(ctx, "growth", w, I, R, o, nb(), "the old array"): continue
        for it in R.iters:
            if it.end != "end": ctx.ob("growth", w, False, "the traversal of the old array stops early"); continue
            inner = recs(it.eff)
            if not inner: ctx.ob("growth", w, None if True else None, "a chain of the old array is skipped"); continue
            q = inner[0]
            cur = cursor(ctx, "growth", w, I, q, T("fld", IN("*this"), "buckets_"), R)
            if cur is None: continue
            moved = False
            for i2 in q.iters:
                if i2.end != "end": ctx.ob("growth", w, False, "the traversal of a chain stops early"); continue
                if any(k.op == "match" and b for k, b in i2.facts.items()): continue      # two stored elements are never equal
                moved = True
                eff = [e for e in i2.eff]
                linked(ctx, "growth", w, I, i2.st, eff, cur, "growth", slotcheck(ctx, w, shapes, w, T("H", cur), S))
            ctx.ob("growth", w, moved or None, "no path moves an element")
        fin = I.read(o.st, SIZE)
        if fin is not FS():
            ph = I.phis.get(fin)
            ok = None
            if ph is not None and fin in R.phis:
                ok = ph["init"] is INT(0) and all(inner_size(I, R, b) for b, _ in ph["back"])
            elif fin.op == "int": ok = False
            ctx.ob("size", w, ok, "after growing, the size is %s" % show(fin))
        else: ctx.ob("size", w, True)
    ctx.ob("growth", w, grown or None, "no growing path")

def inner_size(I, R, b):
    """the size counted by one outer iteration: one more per moved element"""
    if b in R.phis: return True
    ph = I.phis.get(b)
    if ph is None: return False
    for it in R.iters:
        for q in recs(it.eff):
            if b in q.phis:
                for i2 in q.iters:
                    dup = any(k.op == "match" and v for k, v in i2.facts.items())
                    v = I.read(i2.st, SIZE)
                    if not dup and v is not T("add", b, INT(1)): return False
                return q.phis[b]["init"] in R.phis
    return False

def covers(ctx, rule, w, I, R, o, n, what):
    """the loop counts an index from 0 to n by one"""
    idx = [(v, ph) for v, ph in R.phis.items() if ph["init"] is INT(0) and ph["back"] and all(b is T("add", v, INT(1)) for b, _ in ph["back"])]
    wrong = [(v, ph) for v, ph in R.phis.items() if ph["back"] and all(b.op == "add" and b.a[0] is v and b.a[1].op == "int" for b, _ in ph["back"]) and ph["loc"].op == "lv"]
    if not idx:
        if wrong:
            v, ph = wrong[0]
            ctx.ob(rule, w, False if ph["init"].op == "int" else None, "%s is traversed from %s by steps of %s" % (what, show(ph["init"]), show(ph["back"][0][0].a[1])))
        else: ctx.ob(rule, w, None, "index of the traversal of %s not recognised" % what)
        return False
    v = idx[0][0]
    lim = [k for k in o.st.facts if k.op == "lt" and k.a[0] is v and o.st.facts[k] is False] + [k for k in o.st.facts if k.op == "eq" and v in k.a and o.st.facts[k] is True]
    if not lim: ctx.ob(rule, w, None, "bound of the traversal of %s not recognised" % what); return True
    b = lim[0].a[1] if lim[0].a[0] is v else lim[0].a[0]
    ctx.ob(rule, w, b is n if b is n or b.op in ("add", "int", "fld", "bin") else None, "%s is traversed up to %s instead of %s" % (what, show(b), show(n)))
    return True

def cursor(ctx, rule, w, I, q, arr, R):
    """the variable that walks a chain from slot i, taking each successor before the element changes"""
    idx = [v for v, ph in R.phis.items() if ph["init"] is INT(0)]
    for v, ph in q.phis.items():
        t = ph["init"]
        if ph["loc"].op == "phi" or root(ph["loc"]).op != "lv": continue
        if not (t.op == "deref" and t.a[0].op == "padd" and t.a[0].a[0] is arr) and not (t.op == "phi" and I.phis[t]["loc"].op == "ld" and I.phis[t]["loc"].a[0].op == "padd" and I.phis[t]["loc"].a[0].a[0] is arr): continue
        heads = {T("fld", T("fld", x, "hook"), "next") for x, y in q.phis.items() if y["loc"] is T("ld", v)}
        bad = [b for b, _ in ph["back"] if not (b is nextval(v) or b in heads or (b.op == "phi" and b in I.phis and I.phis[b]["loc"] is nextloc(v)))]
        ctx.ob(rule, w, not bad, "the traversal of a chain goes on from %s instead of the successor the element had" % [show(b) for b in bad])
        return v
    ctx.ob(rule, w, None, "cursor of the traversal of a chain not recognised")
    return None

def t_clear(ctx, c, f):
    w = site(f)
    I, outs = run(ctx, f, args=[IN("disposer")])
    for o in outs:
        ctx.ob("dispose", w, I.read(o.st, SIZE) is INT(0), "after clearing, the size is %s" % show(I.read(o.st, SIZE)))
        out = [r for r in recs(o.eff) if any(isinstance(x, LoopRec) for it in r.iters for x in it.eff)]
        if len(out) != 1: ctx.ob("dispose", w, None, "traversal not recognised"); continue
        R = out[0]
        covers(ctx, "dispose", w, I, R, o, nb(), "the array")
        for it in R.iters:
            if it.end != "end": ctx.ob("dispose", w, False, "the traversal of the array stops early"); continue
            inner = recs(it.eff)
            if not inner: ctx.ob("dispose", w, None, "chain not traversed"); continue
            q = inner[0]
            cur = cursor(ctx, "dispose", w, I, q, T("fld", IN("*this"), "buckets_"), R)
            if cur is None: continue
            for i2 in q.iters:
                ds = [e for e in i2.eff if not isinstance(e, LoopRec) and e.kind == "dispose"]
                ctx.ob("dispose", w, len(ds) == 1 and ds[0].args[0] is cur, "an element is disposed of %d times" % len(ds) if not ds or ds[0].args[0] is cur else "the traversal disposes of %s while visiting another element" % show(ds[0].args[0]))
            nul = [e for e in it.eff if not isinstance(e, LoopRec) and e.kind == "write" and e.args[0] is NULL and e.locs[0].op == "ld"]
            nul2 = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind == "std" and e.name in ("std::fill", "std::fill_n") and e.args[-1] is NULL]
            ctx.ob("dispose", w, bool(nul or nul2), "the chain still designates the disposed elements")

def t_ctor(ctx, c, f):
    w = site(f) + " ctor"
    I, outs = run(ctx, f)
    for o in outs:
        ctx.ob("size", w, I.read(o.st, SIZE) is INT(0), "a new table has size " + show(I.read(o.st, SIZE)))
