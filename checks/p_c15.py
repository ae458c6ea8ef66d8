"""C15: a manager owns its library state from start to end."""
from common import *
import re

def check(ctx):
    ctx.rule("single", "a manager is created only if neither the diagrams' state of its configuration nor the state of its values is installed; otherwise an error is raised and nothing is changed")
    ctx.rule("install", "when the manager is returned, both global states are the ones it owns")
    ctx.rule("uninstall", "the destruction of the manager clears both global states, so that another one can be created")
    ctx.rule("handlers", "the deletion handlers installed at creation are reset at destruction")
    ctx.rule("teardown", "what uses a state is destroyed before it: members are declared after what they use")
    ctx.rule("settings", "each component is given the setting of the configuration that is named after it")
    p = ctx.prog
    ctx.each("install", [f for f in p.find("sdd::init") if f.body is not None], lambda f: init(ctx, f))
    ctx.each("uninstall", [f for f in p.find("sdd::manager_impl::(dtor)") if f.body is not None], lambda f: fini(ctx, f))
    ctx.part("handlers", lambda: handlers(ctx))
    ctx.part("teardown", lambda: teardown(ctx))
    for q in ("sdd::internal_manager", "sdd::values::flat_set_manager"):
        ctx.each("settings", [f for f in p.find(q + "::(ctor)") if f.body is not None and f.ck not in ("copy", "move")], lambda f: settings(ctx, f))
    for r in ("single", "install", "uninstall", "teardown", "settings"): ctx.need(r, 2)

class Globals(Interp):
    """the process-wide pointers are two locations, named by their type"""
    def call(self, fn, obj, vs, st, fr, line):
        if fn.mine and not vs and obj is None:
            k = kind(fn.rt)
            if k is not None: return [(st, T("in", "global", k))]
        return super().call(fn, obj, vs, st, fr, line)
def kind(t):
    """which global pointer a function gives access to: its pointee class"""
    t = t.replace(" ", "")
    if not (t.endswith("**") or t.endswith("*&")): return None
    t = t[:-2]
    return t if t.startswith(("sdd::internal_manager<", "sdd::values_manager<")) else None
def globs(st_terms):
    r = {}
    for t in st_terms:
        for x in subterms(t):
            if x.op == "in" and len(x.a) == 2 and x.a[0] == "global": r[x.a[1]] = x
    return r
def written(o, g):
    """last value written to the location g points to, or None"""
    last = None
    for e, loop in flat(o.eff):
        if e.kind == "write" and any(l is not None and g in set(subterms(l)) for l in e.locs): last = (e.args[0] if e.args else None, loop)
    return last

def wanted(p, f):
    """the two global pointers of this configuration: the managers that the owner type holds"""
    if f.name == "init":
        n = "sdd::manager_impl" + (f.ta or "")
    else: n = "sdd::manager_impl" + (f.klass.ta or "")
    cs = [c for c in p.cls("sdd::manager_impl") if "sdd::manager_impl" + c.ta == n]
    r = {}
    for c in cs:
        for x in c.fields:
            t = p.type(x["t"]).replace(" ", "")
            for k in ("sdd::internal_manager<", "sdd::values_manager<"):
                i = t.find(k)
                if i < 0: continue
                d = 0
                for j in range(i, len(t)):
                    if t[j] == "<": d += 1
                    if t[j] == ">":
                        d -= 1
                        if d == 0: r[k] = t[i:j + 1]; break
    return r

def init(ctx, f):
    p = ctx.prog
    w = wanted(p, f)
    where = site(f) + " " + (f.ta or "")
    if len(w) != 2: ctx.ob("install", where, None, "the owner of the states is not recognised"); return
    I = Globals(p)
    ctx.analysed(f)
    for o in I.run(f):
        for k, t in w.items():
            g = T("in", "global", t)
            c = I.norm(T("eq", I.deref_val(g), NULL))
            v = None
            for fact, b in o.st.facts.items():
                if fact.op == "eq" and NULL in fact.a and any(g in set(subterms(x)) for x in fact.a): v = b
            wr = written(o, g)
            what = "%s: %s" % (where, t.split("<")[0])
            if o.kind == "ret":
                ctx.ob("single", what, True if v is True else False if not opaque(o, I) else None, "a manager is created although this state may already be installed (line %s)" % (o.line or f.line))
                if wr is None: ctx.ob("install", what, None if opaque(o, I) else False, "the state is not installed when the manager is returned")
                else:
                    val = wr[0]
                    owned = val is not None and val.op in ("mknew", "new") and any(x is val for x in subterms(o.val))
                    mine = val is not None and val.op == "mknew" and t in repr(val.a[0]).replace(" ", "")
                    ctx.ob("install", what, True if owned and mine else False if val is NULL else None, "what is installed is not what the manager owns")
            else:
                ctx.ob("single", what + " (error)", wr is None, "the error leaves the state changed")
        if o.kind == "throw":
            any_live = any(b is False and fact.op == "eq" and NULL in fact.a for fact, b in o.st.facts.items())
            ctx.ob("single", where + " (error only when installed)", True if any_live else None, "an error without a live manager")
def opaque(o, I):
    """did the path call something that could look at, or set, the states on its behalf"""
    return any(e.kind == "call" and e.fn is not None and e.fn.mine for e, _ in flat(o.eff)) or bool(I.unknown)

def fini(ctx, f):
    p = ctx.prog
    w = wanted(p, f)
    where = site(f) + " " + (f.klass.ta or "")
    if len(w) != 2: ctx.ob("uninstall", where, None, "the owner of the states is not recognised"); return
    I = Globals(p)
    ctx.analysed(f)
    for o in I.run(f):
        for k, t in w.items():
            wr = written(o, T("in", "global", t))
            ok = wr is not None and wr[0] is NULL and not wr[1]
            ctx.ob("uninstall", "%s: %s" % (where, t.split("<")[0]), True if ok else None if (wr is None and opaque(o, I)) or (wr and wr[0] is not NULL and wr[0].op != "in") else False, "the state is still installed after the manager is gone")

def handlers(ctx):
    p = ctx.prog
    def called(f, name, seen):
        r = set()
        if f.id in seen or f.body is None: return r
        seen.add(f.id)
        for n in walk(f.body):
            g = n.get("f") if n.get("k") in ("call", "mcall", "opcall") else None
            if isinstance(g, int) and 0 <= g < len(p.fns):
                h = p.fns[g]
                if h.qn == name: r.add(h.ta)
                elif h.mine: r |= called(h, name, seen)
        return r
    for c in [c for c in p.classes if c is not None and c.mine]:
        ms = p.methods_of(c)
        ins = set(); out = set()
        for f in ms:
            if f.kind == "ctor": ins |= called(f, "sdd::mem::set_deletion_handler", set())
            if f.kind == "dtor": out |= called(f, "sdd::mem::reset_deletion_handler", set())
        own = [f for f in ms if f.kind == "ctor" and called(f, "sdd::mem::set_deletion_handler", set())]
        if not own: continue
        for t in ins: ctx.ob("handlers", "%s: %s" % (c.qn, str(t)[:90]), True if t in out else None if not any(f.kind == "dtor" for f in ms) else False, "the handler is not reset when its table is gone")

def teardown(ctx):
    p = ctx.prog
    def order(c, before, after, why):
        """fields matching `after` must be declared after those matching `before`"""
        fs = [(x["n"], p.type(x["t"])) for x in c.fields]
        dt = [f for f in p.methods_of(c) if f.kind == "dtor" and f.body is not None] 
        for i, (n, t) in enumerate(fs):
            if not before(t): continue
            for j, (m, u) in enumerate(fs):
                if i == j or not after(u): continue
                ok = j > i
                if not ok and any(len(list(walk(d.body))) > 1 and mentions(d, m) for d in dt): ok = None
                ctx.ob("teardown", "%s%s: %s before %s" % (c.qn, c.ta, m, n), ok, "%s is declared before %s, so it is destroyed after it: %s" % (m, n, why))
    def mentions(d, m): return any(x.get("k") == "mem" and x.get("n") == m for x in walk(d.body))
    table = lambda t: t.startswith("sdd::mem::unique_table<")
    homt = lambda t: table(t) and "sdd::hom::" in t
    hand = lambda t: t.endswith("::ptr_handlers") or t.endswith("::ptr_handler")
    uses = lambda t: any(x in t for x in ("sdd::mem::ptr<", "sdd::SDD<", "sdd::dd::context<")) or usesh(t) or table(t)
    usesh = lambda t: "homomorphism<" in t or "sdd::hom::" in t
    for c in p.cls("sdd::internal_manager"):
        if not c.fields: continue
        sddt = lambda t: table(t) and "sdd::hom::" not in t
        order(c, hand, lambda t: not hand(t) and uses(t), "objects are deleted without a handler")
        order(c, sddt, lambda t: not hand(t) and not sddt(t) and uses(t), "diagrams are released after their table is gone")
        order(c, homt, lambda t: usesh(t) and not table(t) and not hand(t), "operations are released after their table is gone")
    for c in p.cls("sdd::values::flat_set_manager"):
        if not c.fields: continue
        order(c, hand, lambda t: not hand(t) and uses(t), "values are deleted without a handler")
        order(c, table, lambda t: "mem::ptr<" in t, "values are released after their table is gone")
    for c in p.cls("sdd::manager_impl"):
        if not c.fields: continue
        order(c, lambda t: "sdd::values_manager<" in t, lambda t: "sdd::internal_manager<" in t, "diagrams use values that are gone")

CACHES = {"difference_op": "sdd_difference_cache_size", "intersection_op": "sdd_intersection_cache_size", "sum_op": "sdd_sum_cache_size", "cached_homomorphism": "hom_cache_size"}
def settings(ctx, f):
    p = ctx.prog
    I = Interp(p, policy=lambda g: "prim" if g.qn.startswith("sdd::mem::") else None)
    where = f.klass.qn + f.klass.ta
    ctx.analysed(f)
    ftype = {x["n"]: p.type(x["t"]) for x in f.klass.fields}
    def conf(args):
        """the settings among the arguments"""
        r = []
        for a in args:
            if a.op == "fld" or (a.op not in ("obj", "mknew", "ctor") and "configuration" in show(a)): r.append(show(a).split(".")[-1])
        return r
    def say(what, want, args):
        c = conf(args)
        ctx.ob("settings", "%s: %s" % (where, what), True if c == [want] else False if len(c) == 1 and re.fullmatch(r"\w+", c[0]) else None, "%s is given %s instead of %s" % (what, c and c[0], want))
    for o in I.run(f):
        if o.kind != "ret": continue
        for l, v in list(o.st.store.items()):
            if l.op == "lf" and v.op == "ctor" and v.a[0] == "sdd::mem::unique_table":
                t = ftype.get(l.a[1])
                if t is None: continue
                want = "flat_set_unique_table_size" if "flat_set_manager" in f.klass.qn else "hom_unique_table_size" if "sdd::hom::" in t else "sdd_unique_table_size"
                say(want[:-5], want, v.a[1:])
            if v.op == "mknew":
                t = repr(v.a[0])
                m = re.match(r"\W*sdd::mem::cache<", t)
                if m:
                    k = [w for n, w in CACHES.items() if "::" + n in t.split("&")[0]]
                    if len(k) == 1: say(k[0][:-5], k[0], v.a[1:])
                elif re.match(r"\W*sdd::mem::arena\b", t): say("sdd_arena", "sdd_arena_size", v.a[1:])
