"""C07: caches stay bounded, evict the least recently used entry, and reset to empty."""
from cachespec import *

def check(ctx):
    ctx.rule("bound", "an entry is only added when the cache is known not to be full, or after one has been evicted")
    ctx.rule("evict", "the evicted entry leaves the table, then is destroyed, then its memory is returned, and it leaves the usage list, each once, before the new entry takes memory")
    ctx.rule("lru", "the evicted entry is at the end of the usage list opposite to the one where used entries are put")
    ctx.rule("track", "every entry added is put in the usage list and remembers its place in it; every hit moves the found entry to the most recent end")
    ctx.rule("clear", "resetting destroys every entry, returns its memory and empties the usage list; destroying a cache resets it")
    ctx.rule("pool", "the pool hands out each of its blocks once until it is returned, and has a block for every entry the cache can hold")
    ctx.rule("reset-all", "resetting a context resets each of its caches")
    for c in instances(ctx):
        M = {}
        for f in ctx.prog.methods_of(c):
            if f.body is not None: M.setdefault(f.name, []).append(f)
        ctx.each("bound", M["operator()"][:1], lambda f: one(ctx, c, f))
        if not M.get("clear"): raise Vanished("cache::clear")
        ctx.each("clear", M["clear"], lambda f: clear(ctx, c, f))
        ctx.each("clear", M.get("(dtor)", []), lambda f: dtor(ctx, c, f))
        ctx.each("pool", [f for f in M.get("(ctor)", []) if f.ck not in ("copy", "move")], lambda f: ctor(ctx, c, f))
    ctx.part("pool", lambda: pool(ctx))
    ctx.part("contexts", lambda: contexts(ctx))
    ctx.need("bound", 1); ctx.need("reset-all", 2)

LRU = lambda: T("fld", IN("*this"), "lru_list_")

def which_end(t):
    """end of the usage list a position or an entry designates"""
    if isinstance(t, T):
        if t.op == "it": return {"b": "front", "e": "back"}.get(t.a[1] if not isinstance(t.a[1], T) else None)
        if t.op == "at" and t.a[1] in ("front", "back"): return t.a[1]
        if t.op == "front": return "front"
    return None

def one(ctx, c, f):
    w = site(f)
    pol, oc = policy(ctx, c)
    I, outs = ctx.run(f, policy=pol)
    ends = {"touch": set(), "insert": set(), "evict": set()}
    for o in outs:
        if o.kind != "ret": continue
        v = View(ctx, c, I, o, oc)
        if v.loops: ctx.ob("bound", w, None, "loop"); continue
        lad = [(i, e) for i, e in v.lru if e.kind == "add"]
        spl = [(i, e) for i, e in v.lru if e.kind == "std" and e.name.endswith("::splice")]
        lrm = [(i, e) for i, e in v.lru if e.kind == "remove"]
        if v.found:
            first = T("fld", v.checkterm(), "first")
            cit = T("fld", T("deref", first), "lru_cit_")
            if spl:
                e = spl[0][1]
                ctx.ob("track", w, len(spl) == 1 and e.args[-1] is cit, "a hit moves %s" % show(e.args[-1]))
                ends["touch"].add(which_end(e.args[1]))
            elif lad and lrm:
                ends["touch"].add("back" if lad[0][1].name.endswith(("push_back", "emplace_back")) else which_end(lad[0][1].args[-1]) or ("front" if lad[0][1].name.endswith("_front") else None))
                ctx.ob("track", w, None, "hit re-inserts the entry")
            elif not v.lru: ctx.ob("track", w, False, "a hit leaves the entry where it was in the usage list")
            else: ctx.ob("track", w, None, "hit handling not recognised")
            ctx.ob("evict", w, not (v.erase or v.dealloc or v.dtor), "a hit drops an entry")
            continue
        if not v.build and not v.commit:
            ctx.ob("evict", w, not (v.erase or v.dealloc or v.dtor), "an entry is dropped although none is added"); continue
        # is the cache known to have room?
        size = [k for k in o.facts if any(x.op == "size" or (x.op == "call" and x.a[0] == HT + "size") for x in subterms(k))]
        room = None
        mx = [x for k in size for x in k.a if isinstance(x, T) and x.op == "fld" and x.a[1] == "max_size_"]
        for k in size:
            a, b = (k.a + (None, None))[:2]
            ismax = lambda t: t is T("fld", IN("*this"), "max_size_")
            issz = lambda t: t is not None and (t is T("size", T("fld", IN("*this"), "set_")) or (t.op == "call" and t.a[0] == HT + "size"))
            if k.op == "eq" and {ismax(a), ismax(b)} == {True, False} and (issz(a) or issz(b)): room = not o.facts[k]
            elif k.op == "lt" and issz(a) and ismax(b): room = o.facts[k]
            elif k.op == "lt" and ismax(a) and issz(b): room = room if o.facts[k] is False else False
        evicted = bool(v.erase)
        ctx.ob("bound", w, True if evicted or room else (False if size and mx else None), "an entry is added while the cache may be full")
        if evicted or v.dealloc or v.dtor or lrm:
            n = (len(v.erase), len(v.dtor), len(v.dealloc), len(lrm))
            if n != (1, 1, 1, 1):
                ctx.ob("evict", w, False, "eviction: removed from the table %d times, destroyed %d times, memory returned %d times, removed from the usage list %d times" % n); continue
            vic = v.eff[v.erase[0]].args[1]
            ctx.ob("evict", w, v.erase[0] < v.dtor[0] < v.dealloc[0], "the entry is used after it was destroyed, or its memory returned while it is alive")
            dl = v.eff[v.dtor[0]].locs[0]
            ctx.ob("evict", w, dl is T("ld", vic), "the entry destroyed is not the one removed from the table")
            ctx.ob("evict", w, v.eff[v.dealloc[0]].args[1] is vic, "the memory returned is not that of the evicted entry")
            e1 = which_end(vic)
            re_ = lrm[0][1]
            if re_.name.endswith("pop_front"): e2 = "front"
            elif re_.name.endswith("pop_back"): e2 = "back"
            elif len(re_.args) > 1:
                x = re_.args[1]
                e2 = which_end(x)
                if x is T("fld", T("deref", vic), "lru_cit_"):
                    e2 = e1
                    ctx.ob("evict", w, lrm[0][0] < v.dtor[0], "the evicted entry is read after it was destroyed")
            else: e2 = None
            ctx.ob("evict", w, (e1 == e2) if e1 and e2 else None, "the entry removed from the table is the %s of the usage list but the %s is removed from the list" % (e1, e2))
            ends["evict"].add(e1)
            if v.alloc: ctx.ob("evict", w, v.dealloc[0] < v.alloc[0], "memory for the new entry is taken before the evicted one returned its own")
        if len(v.alloc) == 1 and len(v.build) == 1:
            b = v.eff[v.build[0]]
            ctx.ob("pool", w, b.locs[0] is T("ld", v.eff[v.alloc[0]].res) or None, "the entry is built at %s" % show(b.locs[0]))
        if not lad: ctx.ob("track", w, False if not v.lru else None, "the new entry is not put in the usage list"); continue
        if len(v.build) == 1 and len(lad) == 1:
            ent = v.eff[v.build[0]].locs[0].a[0]
            e = lad[0][1]
            ctx.ob("track", w, e.args[0] is ent, "what is put in the usage list is %s" % show(e.args[0]))
            if e.name.endswith(("push_back", "emplace_back")): en = "back"
            elif e.name.endswith(("push_front", "emplace_front")): en = "front"
            else: en = which_end(e.args[-1])
            ends["insert"].add(en)
            cit = I.read(o.st, T("lf", T("ld", ent), "lru_cit_"))
            ok = None
            if cit.op == "it": ok = cit.a[1] is T("key", ent) or (en == "front" and cit.a[1] == "b") or (en == "back" and isinstance(cit.a[1], T) and cit.a[1] is T("eoff", -1))
            elif cit.op in ("fld", "ctor", "int"): ok = False
            ctx.ob("track", w, ok, "the entry remembers %s as its place in the usage list" % show(cit))
    for k, s in ends.items():
        if len(s) != 1 or None in s: ctx.ob("lru", w, None, "end of the usage list for %s: %s" % (k, s))
    t, i, e = [next(iter(ends[k])) if len(ends[k]) == 1 else None for k in ("touch", "insert", "evict")]
    if t and i: ctx.ob("lru", w, t == i, "used entries go to the %s of the usage list and new ones to the %s" % (t, i))
    if i and e: ctx.ob("lru", w, i != e, "entries are evicted from the end where new ones are put")
    if t and e: ctx.ob("lru", w, t != e, "entries are evicted from the end where used ones are put")

def clear(ctx, c, f):
    w = site(f)
    pol, oc = policy(ctx, c)
    I, outs = ctx.run(f, policy=pol)
    for o in outs:
        eff = top(o.eff)
        cd = [e for e in eff if e.name == HT + "clear_and_dispose"]
        if len(cd) != 1: ctx.ob("clear", w, False if not cd and not any(isinstance(e, LoopRec) for e in o.eff) else None, "the table is emptied %d times" % len(cd)); continue
        lst = [e for e in eff if e.kind == "clear" and any("lru" in str(l) for l in e.locs)]
        fin = I.read(o.st, T("lf", T("ld", IN("this")), "lru_list_"))
        ctx.ob("clear", w, bool(lst) or fin is EMPTYC, "the usage list keeps the dropped entries")
        g = cd[0].args[1]
        if g.op != "closure" or g not in I.closures: ctx.ob("clear", w, None, "disposer " + show(g)); continue
        J = Interp(ctx.prog, policy=pol); J.closures = I.closures
        ops, env, this = I.closures[g]
        h = [ctx.prog.fns[i] for i in ops if ctx.prog.fns[i].body is not None][0]
        for s, V in J.call_closure(h, g, [IN("entry")], St(), Frame(f, T("ld", IN("this")), 900, 0), 0):
            ee = top(s.eff)
            d = [i for i, e in enumerate(ee) if e.kind == "dtor" and "cache_entry" in e.name]
            a = [i for i, e in enumerate(ee) if e.name == POOL + "deallocate"]
            ctx.ob("clear", w, len(d) == 1 and ee[d[0]].locs[0] is T("ld", IN("entry")), "an entry is destroyed %d times" % len(d))
            ctx.ob("clear", w, len(a) == 1 and ee[a[0]].args[1] is IN("entry"), "the memory of an entry is returned %d times" % len(a))
            if len(d) == 1 and len(a) == 1: ctx.ob("clear", w, d[0] < a[0], "the memory of an entry is returned before it is destroyed")

def dtor(ctx, c, f):
    if f.implicit or f.defaulted:
        ctx.ob("clear", site(f) + " dtor", False, "destroying a cache does not destroy its entries"); return
    pol, oc = policy(ctx, c)
    I, outs = ctx.run(f, policy=pol)
    for o in outs:
        ctx.ob("clear", site(f) + " dtor", any(e.name == HT + "clear_and_dispose" for e in top(o.eff)), "destroying a cache does not destroy its entries")

def ctor(ctx, c, f):
    pol, oc = policy(ctx, c)
    I, outs = ctx.run(f, policy=pol)
    th = T("ld", IN("this"))
    for o in outs:
        mx = I.read(o.st, T("lf", th, "max_size_")); pl = I.read(o.st, T("lf", th, "pool_"))
        if pl.op != "ctor" or len(pl.a) < 2: ctx.ob("pool", site(f) + " ctor", None, show(pl)); continue
        n = pl.a[1]
        if n is mx: ok = True
        elif n.op == "add" and n.a[0] is mx: ok = n.a[1].a[0] >= 0 if n.a[1].op == "int" else None
        elif n.op == "int" or n.op == "uninit": ok = False
        elif has(n, "uninit") or any(x is T("fld", IN("*this"), "max_size_") for x in subterms(n)): ok = False
        else: ok = None
        ctx.ob("pool", site(f) + " ctor", ok, "the pool has %s blocks for up to %s entries" % (show(n), show(mx)))
        bc = [x for x in subterms(mx) if x.op == "call" and x.a[0] == HT + "bucket_count" or x.op == "in"]
        ctx.ob("bound", site(f) + " ctor", bool(bc) or None, "capacity " + show(mx))

def pool(ctx):
    p = ctx.prog
    N = lambda t: T("fld", t, "next")
    for f in p.find(POOL + "allocate", need=False)[:1]:
        def al(f):
            I, outs = ctx.run(f)
            fl = T("fld", IN("*this"), "free_list")
            for o in outs:
                ctx.ob("pool", site(f), I.rv(o.st, o.val) is fl, "allocates " + show(o.val))
                fin = I.read(o.st, T("lf", T("ld", IN("this")), "free_list"))
                ctx.ob("pool", site(f), fin is N(T("deref", fl)), "after an allocation the free list is " + show(fin))
        ctx.each("pool", [f], al)
    for f in p.find(POOL + "deallocate", need=False)[:1]:
        def de(f):
            I, outs = ctx.run(f)
            fl = T("fld", IN("*this"), "free_list"); x = IN(f.params[0]["n"])
            for o in outs:
                fin = I.read(o.st, T("lf", T("ld", IN("this")), "free_list"))
                ctx.ob("pool", site(f), fin is x, "after a return the free list starts with " + show(fin))
                nx = I.read(o.st, T("lf", T("ld", x), "next"))
                ctx.ob("pool", site(f), nx is fl, "the returned block is followed by " + show(nx))
        ctx.each("pool", [f], de)
    for f in [f for f in p.find(POOL + "(ctor)", need=False) if f.ck not in ("copy", "move")][:1]:
        def ct(f):
            I, outs = ctx.run(f)
            n = IN(f.params[0]["n"])
            for o in outs:
                rs = [e for e in o.eff if isinstance(e, LoopRec)]
                if len(rs) != 1: ctx.ob("pool", site(f), None, "loop not recognised"); continue
                r = rs[0]
                idx = [(v, ph) for v, ph in r.phis.items() if ph["back"] and all(b is T("add", v, INT(1)) for b, _ in ph["back"])]
                lim = [k for k, b in o.facts.items() if k.op == "lt" and idx and k.a[0] is idx[0][0] and b is False]
                if not idx or not lim: ctx.ob("pool", site(f), None, "loop not recognised"); continue
                v, ph = idx[0]; lim = lim[0].a[1]
                ctx.ob("pool", site(f), ph["init"] is INT(0), "blocks before %s are not linked" % show(ph["init"]))
                ctx.ob("pool", site(f), lim is T("add", n, INT(-1)) if lim.op in ("add", "in") else None, "blocks are linked up to %s of %s" % (show(lim), show(n)))
                new = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind == "new"]
                if new: ctx.ob("pool", site(f), new[0].args[0] is n, "memory for %s blocks of %s" % (show(new[0].args[0]), show(n)))
                for it in r.iters:
                    ws = [e for e in it.eff if not isinstance(e, LoopRec) and e.kind == "write" and str(e.locs[0]).count("next")]
                    ok = None
                    if len(ws) == 1:
                        a = ws[0].args[0]; l = ws[0].locs[0]
                        if a.op == "padd" and l.op == "lf" and l.a[0].op == "ld":
                            b0, b1 = l.a[0].a[0], a
                            ok = b0.op == "padd" and b1.op == "padd" and b0.a[0] is b1.a[0] and b0.a[1] is v and b1.a[1] is T("add", v, INT(1))
                    ctx.ob("pool", site(f), ok, "block links to %s" % [(show(e.locs[0]), show(e.args[0])) for e in ws])
                last = [e for e in o.eff if not isinstance(e, LoopRec) and e.kind == "write" and e.args[0] is NULL]
                ctx.ob("pool", site(f), bool(last) or None, "the last block")
        ctx.each("pool", [f], ct)

def contexts(ctx):
    p = ctx.prog
    for q in ("sdd::dd::context", "sdd::hom::context"):
        for c in p.cls(q):
            cf = [x["n"] for x in c.fields if "mem::cache" in p.type(x["t"])]
            for f in p.methods_of(c, "clear"):
                if f.body is None: continue
                def one(f):
                    I, outs = ctx.run(f, policy=lambda g: "prim" if g.qn == CACHE + "::clear" else None)
                    for o in outs:
                        done = []
                        for e, _ in flat(o.eff):
                            if e.kind == "call" and e.name == CACHE + "::clear": done.append(e.args[0])
                        for n in cf:
                            ok = any(any(x is T("fld", IN("*this"), n) for x in subterms(d)) for d in done)
                            ctx.ob("reset-all", "%s: %s" % (site(f), n), ok, "the cache %s is not reset" % n)
                ctx.each("reset-all", [f], one)
