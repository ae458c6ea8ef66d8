"""C20: shared objects cannot be modified through the public interface."""
from common import *
from ddinterp import strip
import re

HANDLES = ("sdd::SDD", "sdd::homomorphism", "sdd::values::flat_set")
OBJECTS = ("sdd::mem::unique", "sdd::mem::variant", "sdd::node", "sdd::arc")
def shared(q): return q in OBJECTS or (q.startswith("sdd::hom::_") and q.count("::") == 2)
def relevant(q): return shared(q) or q in HANDLES or q == "sdd::mem::ptr"
UNIFY = ("sdd::values::flat_set::unify", "sdd::SDD::unify_node", "sdd::mem::unique_table::operator()", "sdd::mem::unique_table::allocate", "sdd::mem::make_unique", "sdd::hom::make", "sdd::hom::make_variable_size")

def open_view(t):
    """does a value of this type give write access to something: the class of what it gives access to"""
    t = t.strip()
    m = re.match(r"^(.*?)\s*([&*])(const)?$", t)
    if m:
        b = m.group(1).strip()
        return None if b.startswith("const ") or b.endswith(" const") else strip(b)
    if "vec_iterator<" in t:
        m = re.search(r"vec_iterator<(.*?) \*, (true|false)>", t)
        return strip(m.group(1)) if m and m.group(2) == "false" else None
    if "__normal_iterator<" in t:
        m = re.search(r"__normal_iterator<(.*?) \*", t)
        return strip(m.group(1)) if m and not m.group(1).startswith("const ") else None
    return None

def check(ctx):
    p = ctx.prog
    ctx.rule("view", "no public function gives write access to a shared object or to anything stored in one: references, pointers and iterators it returns are to constants")
    ctx.rule("stored", "what a shared object stores is constant or private")
    ctx.rule("handle", "an operation that modifies a handle makes it designate another object, and writes nothing into the object it designates or into what its arguments designate")
    ctx.rule("reading", "an operation on a constant handle or object writes nothing reachable through it")
    ctx.rule("witness", "a program that writes through the public interface is rejected by the compiler")
    n = 0
    for f in p.fns:
        if not f.rt or f.acc not in (0, None) or not f.rel.startswith("sdd/"): continue
        k = f.klass
        if k is not None and not relevant(k.qn): continue
        if k is None and not any(relevant(strip(p.type(q.get("t")))) for q in f.params or []): continue
        if k is None and (f.qn.startswith("sdd::dd::") or f.qn.startswith("sdd::hom::")): continue       # internal functions
        x = open_view(f.rt)
        w = "%s %s" % (site(f), "const" if f.const else "")
        if x is None:
            if "&" in f.rt or "*" in f.rt or "iterator" in f.rt: ctx.ob("view", w, True); n += 1
            continue
        n += 1
        if k is not None and x == k.qn and (f.name.startswith("operator") and f.name.endswith("=") or not f.const) and (k.qn in HANDLES or k.qn == "sdd::mem::ptr" or f.name == "operator="): ctx.ob("view", w, True); continue
        if k is None and x in HANDLES and f.name.startswith("operator") and f.name.endswith("=") and open_view(p.type(f.params[0].get("t"))) == x: ctx.ob("view", w, True); continue
        if k is None and x in HANDLES and any(open_view(p.type(q.get("t"))) == x for q in f.params): ctx.ob("view", w, True); continue
        if k is None and not relevant(x) and x.split("::")[0] in ("std", "boost"): ctx.ob("view", w, True); continue    # streams
        inner = relevant(x) or (k is not None and (shared(k.qn) or k.qn in HANDLES or k.qn == "sdd::mem::ptr"))
        if k is not None and k.qn == "sdd::mem::ptr" and f.name == "operator->" and f.const and False: continue
        ctx.ob("view", w, False if inner else True, "gives write access to %s (returns %s)" % (x, f.rt[:80]))
    for c in p.classes:
        if not shared(c.qn): continue
        for fl in c.fields:
            t = p.type(fl["t"])
            acc = fl.get("acc")
            w = "%s::%s" % (c.qn.replace("sdd::", "", 1), fl["n"])
            if fl.get("mut"): ctx.ob("stored", w, False if acc == 0 else True, "a mutable public field"); continue
            ctx.ob("stored", w, True if acc != 0 or t.startswith("const ") or not relevant(c.qn) or True else None)
    pol = lambda f: (lambda g: "prim" if g.qn in UNIFY and g.id != f.id else None)
    def touches(I, l):
        """does the location lie in an object designated by a handle?"""
        s = show(l)
        ts = list(subterms(l))
        for t in ts:
            if t.op == "lf" and t.a[1] in ("ref_count_", "hook", "next"): return False      # bookkeeping of the object's owner
        for t in ts:
            if t.op in ("ld", "deref") and ("ptr_" in show(t) or "x_" in show(t)): return True
            if t.op == "tmp" and any(y.op == "fld" and y.a[1] in ("data_", "storage") for y in subterms(t)): return True
            if t.op in ("lf",) and t.a[1] in ("data_", "storage") and t.a[0].op in ("ld", "deref"): return True
        return False
    def effects(rule, f):
        w = "%s(%s)" % (site(f), ", ".join(strip(p.type(q.get("t"))).split("::")[-1] for q in f.params or []))
        I, outs = ctx.run(f, policy=pol(f))
        for o in outs:
            bad = None
            for e, l in flat(o.eff):
                if e.kind in ("write", "add", "remove", "clear", "std", "reset", "construct", "swap", "mutate"):
                    if e.kind == "std" and e.name.split("::")[-1] in ("copy", "equal", "find", "count", "size", "empty", "begin", "end", "cbegin", "cend", "lower_bound", "upper_bound", "any", "none", "test", "hash", "accumulate", "all_of", "any_of"): continue
                    for x in (e.locs or ())[:1]:
                        if touches(I, x): bad = "%s %s at %s (line %s)" % (e.kind, e.name, show(x)[:80], e.line)
                        elif rule == "reading" and e.kind == "write" and T("ld", T("this")) in set(subterms(x)): bad = "writes %s (line %s)" % (show(x)[:80], e.line)
            ctx.ob(rule, w, bad is None, bad or "")
    mods = [f for f in p.mine() if f.klass is not None and f.klass.qn in HANDLES and f.acc == 0 and not f.const and not f.static and f.kind == "method"]
    seen = set()
    def uniq(fs):
        r = []
        for f in fs:
            k = (f.qn, f.line, len(f.params or []))
            if k in seen and ctx.tier != "thorough": continue
            seen.add(k); r.append(f)
        return r
    ctx.each("handle", uniq(mods), lambda f: effects("handle", f))
    free = [f for f in p.mine() if f.kind == "free" and f.name in ("sum", "difference", "intersection") and f.qn.startswith("sdd::values::")] + [f for f in p.mine() if f.kind == "free" and f.name == "swap" and f.params and strip(p.type(f.params[0].get("t"))) in HANDLES]
    ctx.each("handle", uniq(free), lambda f: effects("handle", f))
    reads = [f for f in p.mine() if f.klass is not None and (f.klass.qn in HANDLES or f.klass.qn in ("sdd::mem::unique", "sdd::node", "sdd::arc")) and f.acc == 0 and f.const and f.kind == "method" and f.name not in ("operator()",)]
    ctx.each("reading", uniq([f for f in reads if f.name not in ("skip", "selector")]), lambda f: effects("reading", f))
    witnesses(ctx)
    ctx.need("view", 20); ctx.need("handle", 2); ctx.need("reading", 10); ctx.need("witness", 8)

PRE = '''
#include <sdd/sdd.hh>
#include <sdd/tools/nodes.hh>
using C = sdd::conf1; using SDD = sdd::SDD<C>; using H = sdd::homomorphism<C>; using V = C::Values;
using data = std::decay_t<decltype(*std::declval<SDD>())>; using hdata = std::decay_t<decltype(*std::declval<H>())>; using flat = sdd::flat_node<C>; using hier = sdd::hierarchical_node<C>;
using vdata = std::decay_t<decltype(std::declval<V>().ptr()->data())>;
struct reader { void operator()(const sdd::zero_terminal<C>&) const {} void operator()(const sdd::one_terminal<C>&) const {} void operator()(const flat&) const {} void operator()(const hier&) const {} };
'''
READS = {   # what a client may do: each compiles (so that the rejections below are for the write alone)
 "diagram": "void f(SDD& s) { const data& d = *s; (void)d; }",
 "unique": "void f(SDD& s) { const data& d = s.ptr()->data(); (void)d; }",
 "operation": "void f(H& h) { const hdata& d = *h; (void)d; }",
 "node": "void f(SDD& s) { const flat& n = sdd::mem::variant_cast<flat>(*s); (void)n; }",
 "arc": "void f(const flat& n) { const auto& a = *n.begin(); (void)a; }",
 "valuation": "void f(const flat& n) { const V& v = n.begin()->valuation(); (void)v; }",
 "nested": "void f(const hier& n) { const SDD& v = n.begin()->valuation(); (void)v; }",
 "successor": "void f(const flat& n) { const SDD& v = n.begin()->successor(); (void)v; }",
 "value": "void f(V& v) { const vdata& d = v.ptr()->data(); (void)d; }",
 "element": "void f(V& v) { const auto& x = *v.begin(); (void)x; }",
 "found": "void f(V& v) { const auto& x = *v.find(3); (void)x; }",
 "bound": "void f(V& v) { const auto& x = *v.lower_bound(3); (void)x; }",
 "visited": "void f(SDD& s) { sdd::visit(reader{}, s); }",
}
WRITES = {
 "diagram": ["void f(SDD& s) { data& d = *s; (void)d; }", "void f(SDD& s) { data* d = s.operator->(); (void)d; }"],
 "unique": ["void f(SDD& s) { data& d = s.ptr()->data(); (void)d; }"],
 "operation": ["void f(H& h) { hdata& d = *h; (void)d; }", "void f(H& h) { hdata* d = h.operator->(); (void)d; }"],
 "node": ["void f(SDD& s) { flat& n = sdd::mem::variant_cast<flat>(*s); (void)n; }"],
 "arc": ["void f(const flat& n) { std::remove_const_t<std::remove_reference_t<decltype(*n.begin())>>& a = *n.begin(); (void)a; }", "void f(flat& n) { std::remove_const_t<std::remove_reference_t<decltype(*n.begin())>>& a = *n.begin(); (void)a; }"],
 "valuation": ["void f(const flat& n) { n.begin()->valuation().insert(3); }", "void f(flat& n) { V& v = n.begin()->valuation(); (void)v; }"],
 "nested": ["void f(hier& n) { SDD& v = n.begin()->valuation(); (void)v; }"],
 "successor": ["void f(flat& n) { SDD& v = n.begin()->successor(); (void)v; }"],
 "value": ["void f(V& v) { vdata& d = v.ptr()->data(); (void)d; }", "void f(V& v) { v.ptr()->data().insert(3); }"],
 "element": ["void f(V& v) { *v.begin() = 3; }", "void f(V& v) { *v.cbegin() = 3; }", "void f(V& v) { *v.rbegin() = 3; }"],
 "found": ["void f(V& v) { *v.find(3) = 4; }"],
 "bound": ["void f(V& v) { *v.lower_bound(3) = 4; }", "void f(V& v) { *v.upper_bound(3) = 4; }"],
 "visited": ["struct w : reader { using reader::operator(); void operator()(flat&) const = delete; };\nvoid f(SDD& s) { struct g { void operator()(sdd::zero_terminal<C>&) const {} void operator()(sdd::one_terminal<C>&) const {} void operator()(flat&) const {} void operator()(hier&) const {} }; sdd::visit(g{}, s); }"],
}
def witnesses(ctx):
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(k, None, c) for k, c in READS.items()] + [(k, i, c) for k, cs in WRITES.items() for i, c in enumerate(cs)]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: compiles(PRE + j[2]), jobs))
    reads = {k: r[0] for (k, i, c), r in zip(jobs, res) if i is None}
    for (k, i, c), (ok, errs) in zip(jobs, res):
        if i is None: continue
        if not reads[k]: ctx.ob("witness", "%s: %s" % (k, c.splitlines()[-1][:100]), None, "reading it does not compile either"); continue
        ctx.ob("witness", "%s: %s" % (k, c.splitlines()[-1][:100]), not ok, "compiles")
