"""Abstract interpreter over the exported program.

Domain: a disjunctive (trace-partitioned) value-numbering domain. A value is a Herbrand term over the
inputs of the analysed function; a state maps locations to terms and carries the set of atomic facts
that the branches taken so far established (a fact is looked up syntactically after normalisation: no
solver). Loops are widened at once: every location a loop may write is replaced by a phi term (an
iterator by a generic position of its range), and the body is interpreted from that state until the set
of written locations is stable, so one abstract iteration stands for every concrete iteration.
Helpers and lambdas are inlined up to a bound; beyond it, or where a policy asks for it, a call is an
uninterpreted term plus a recorded effect."""
from program import AnalysisBroken

class T:
    __slots__ = ("op", "a")       # interned: identity is equality, and the default hash does
    table = {}
    def __new__(cls, op, *a):
        k = (op,) + a
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls); t.op, t.a = op, a
            cls.table[k] = t
        return t
    def __repr__(self): return show(self)

def show(t, d=0):
    if isinstance(t, tuple): return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T): return str(t)
    if d > 9: return "…"
    if t.op == "in": return str(t.a[0])
    if t.op in ("int", "bool", "str", "enum"): return str(t.a[0])
    if t.op == "fld": return show(t.a[0], d + 1) + "." + str(t.a[1])
    if t.op == "call":
        n = str(t.a[0]).split("::")
        return "::".join(n[-2:] if len(n) > 1 and n[-1].startswith("operator") else n[-1:]) + "(" + ", ".join(show(x, d + 1) for x in t.a[1:]) + ")"
    return t.op + ("(" + ", ".join(show(x, d + 1) for x in t.a) + ")" if t.a else "")

TRUE, FALSE, NULL, VOID = T("bool", True), T("bool", False), T("null"), T("void")
def INT(n): return T("int", int(n))
def IN(n): return T("in", n)
EMPTYC = T("coll")

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple): st.extend(x)

def has(t, op): return any(x.op == op for x in subterms(t))

def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple): return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T): return t
    if t in m: return m[t]
    if t in memo: return memo[t]
    r = T(t.op, *[subst(x, m, memo) for x in t.a]) if t.a else t
    memo[t] = r
    return r

class LV:
    """a glvalue: designates a location"""
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "LV(%s)" % show(self.loc)

class Effect:
    __slots__ = ("kind", "name", "fn", "args", "locs", "line", "file", "facts", "res", "infn", "extra")
    def __init__(self, kind, name, fn, args, locs, line, file, facts, res=None, infn=None, extra=None):
        self.kind, self.name, self.fn, self.args, self.locs = kind, name, fn, args, locs
        self.line, self.file, self.facts, self.res, self.infn, self.extra = line, file, facts, res, infn, extra
    def __repr__(self): return "%s %s(%s)@%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args), self.line)

class LoopRec:
    kind = "loop"
    def __init__(self, lid, line): self.lid, self.line, self.iters, self.src, self.phis, self.start = lid, line, [], None, {}, None
    def __repr__(self): return "loop#%s src=%s %d iter-paths" % (self.lid, show(self.src) if self.src else None, len(self.iters))

class Iter:
    """one abstract iteration path: how it ended, what it assumed, did and wrote"""
    def __init__(self, end, facts, eff, st, val=None): self.end, self.facts, self.eff, self.st, self.val = end, facts, eff, st, val

class St:
    __slots__ = ("store", "kids", "facts", "eff", "tick")
    def __init__(self): self.store, self.kids, self.facts, self.eff, self.tick = {}, {}, {}, [], 0
    def copy(self):
        s = St.__new__(St)
        s.store, s.facts, s.eff, s.tick = dict(self.store), dict(self.facts), list(self.eff), self.tick
        s.kids = {k: set(v) for k, v in self.kids.items()}
        return s

class Out:
    """one outcome of a function: kind in ret|throw"""
    def __init__(self, kind, val, st, line=None): self.kind, self.val, self.st, self.line = kind, val, st, line
    @property
    def facts(self): return self.st.facts
    @property
    def eff(self): return self.st.eff
    def __repr__(self): return "%s %s if %s" % (self.kind, show(self.val), showfacts(self.st.facts))

def showfacts(f): return " & ".join(("" if v else "!") + show(k) for k, v in f.items()) or "true"

class Frame:
    __slots__ = ("fn", "env", "this", "id", "depth", "ntemps", "scopes", "temps")
    def __init__(self, fn, this, fid, depth):
        self.fn, self.env, self.this, self.id, self.depth, self.ntemps = fn, {}, this, fid, depth, 0
        self.scopes, self.temps = [[]], []

class TooComplex(AnalysisBroken): pass

def root(loc):
    while loc.op in ("lf", "le"): loc = loc.a[0]
    return loc

CMP = {"==": "eq", "!=": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge"}

class Interp:
    MAXDEPTH = 14
    MAXPATHS = 4000
    def __init__(self, prog, policy=None, prims=None, dtors=None, inline_std=False):
        self.p = prog
        self.policy = policy or (lambda fn: None)
        self.prims = prims or {}
        self.dtors = dtors or (lambda clsid: None)       # class id -> destructor to interpret at end of scope
        self.writes = None
        self.phis = {}
        self.nfr = 0
        self.nloop = 0
        self.loops = []                                   # active loop stack (src terms)
        self.paths = 0
        self.unknown = set()                              # constructs met that have no transfer function
        self.closures = {}
        self.calls_seen = set()

    # ------------------------------------------------------------------ store
    def default(self, st, loc):
        o = loc.op
        if o == "lf": return self.field(self.raw(st, loc.a[0]), loc.a[1])
        if o == "ld": return self.deref_val(loc.a[0])
        if o == "tmp": return loc.a[0]
        if o == "le": return self.elem_val(self.raw(st, loc.a[0]), loc.a[1])
        if o == "lp": return IN(loc.a[0])
        if o == "lg": return T("glob", loc.a[0])
        return T("uninit", loc)
    def deref_val(self, p):
        if p.op == "fn": return p
        if p.op == "coll" and p.a: return p.a[0]
        if p.op == "padd" and p.a[0].op == "coll" and p.a[1].op == "int" and 0 <= p.a[1].a[0] < len(p.a[0].a): return p.a[0].a[p.a[1].a[0]]
        if p.op == "in" and p.a[0] == "this": return IN("*this")
        return T("deref", p)
    def raw(self, st, loc):
        v = st.store.get(loc)
        return self.default(st, loc) if v is None else v
    def read(self, st, loc):
        v = self.raw(st, loc)
        ks = st.kids.get(loc)
        if ks:
            ups = tuple(sorted(((k.a[1], self.read(st, k)) for k in ks), key=lambda x: str(x[0])))
            if v.op == "obj":
                d = dict(v.a[1]); d.update(ups)
                return T("obj", v.a[0], tuple(sorted(d.items(), key=lambda x: str(x[0]))))
            ups = tuple(u for u in ups if u[1] is not (self.field(v, u[0])))
            return T("upd", v, ups) if ups else v
        return v
    def write(self, st, loc, v):
        if self.writes is not None: self.writes.add(loc)
        self._kill(st, loc)
        st.store[loc] = v
        x = loc
        while x.op in ("lf", "le"):
            st.kids.setdefault(x.a[0], set()).add(x); x = x.a[0]
    def _kill(self, st, loc):
        for k in st.kids.pop(loc, ()):
            st.store.pop(k, None); self._kill(st, k)
    def field(self, v, f):
        if v.op == "obj":
            for k, x in v.a[1]:
                if k == f: return x
        if v.op == "upd":
            for k, x in v.a[1]:
                if k == f: return x
            return self.field(v.a[0], f)
        if v.op == "pair" and f in ("first", "second"): return v.a[0 if f == "first" else 1]
        if v.op == "moved": return T("moved", self.field(v.a[0], f))
        return T("fld", v, f)
    def elem_val(self, c, i):
        if isinstance(i, T) and i.op == "int" and c.op == "coll" and i.a[0] < len(c.a) and not any(has(x, "elem") for x in c.a): return c.a[i.a[0]]
        if i == "back":
            if c.op == "coll" and c.a: return c.a[-1]
            if c.op == "ext": return c.a[1]
        if i == "front" and c.op == "coll" and c.a: return c.a[0]
        if isinstance(i, T) and i.op == "pos": return T("elem", c, i.a[0])
        if isinstance(i, T) and i in self.idxpos: return T("elem", c, self.idxpos[i])
        return T("at", c, i)
    idxpos = {}

    def rv(self, st, V):
        return self.read(st, V.loc) if isinstance(V, LV) else V
    def loc(self, V):
        if isinstance(V, LV): return V.loc
        if V.op == "ctorres": return V.a[0]
        return T("tmp", V)

    def emit(self, st, kind, name, fn, args, locs, line, fr, res=None, extra=None):
        e = Effect(kind, name, fn, tuple(args), tuple(locs), line, fr.fn.rel if fr and fr.fn else "?", dict(st.facts), res, fr.fn if fr else None, extra)
        st.eff.append(e)
        return e

    # ------------------------------------------------------------------ facts
    def norm(self, c):
        """normalises a boolean term to (atom, polarity) or a literal"""
        pol = True
        while True:
            o = c.op
            if o == "not": c = c.a[0]; pol = not pol; continue
            if o == "bool": return (TRUE if c.a[0] == pol else FALSE), True
            if o == "ne": c = T("eq", *c.a); pol = not pol; continue
            if o == "gt": c = T("lt", c.a[1], c.a[0]); continue
            if o == "le": c = T("lt", c.a[1], c.a[0]); pol = not pol; continue
            if o == "ge": c = T("lt", c.a[0], c.a[1]); pol = not pol; continue
            if o == "eq":
                a, b = c.a
                if a is b: return (TRUE if pol else FALSE), True
                if b.op in ("int", "bool", "null", "enum", "coll") and a.op not in ("int", "bool", "null", "enum", "coll"): a, b = a, b
                elif a.op in ("int", "bool", "null", "enum", "coll") and b.op not in ("int", "bool", "null", "enum", "coll"): a, b = b, a
                elif a.op in ("int", "bool", "null", "enum") and b.op in ("int", "bool", "null", "enum"):
                    return (FALSE if pol else TRUE) , True
                elif repr(a) > repr(b): a, b = b, a
                if b.op == "bool": c = a; pol = pol if b.a[0] else not pol; continue
                if a.op == "size" and b is INT(0): return T("empty", a.a[0]), pol
                if b.op == "null" and a.op in ("addr", "new"): return (FALSE if pol else TRUE), True
                if a.op == "addr" and b.op == "addr" and a is not b: return T("eq", a, b), pol
                if a.op == "it" and b.op == "it" and a.a[0] is b.a[0]:
                    if a.a[1] == "e" or b.a[1] == "e":
                        o2 = b if a.a[1] == "e" else a
                        if o2.a[1] == "e": return (TRUE if pol else FALSE), True
                        if o2.a[1] == "b": return T("empty", a.a[0]), pol
                        return T("atend", o2), pol
                return T("eq", a, b), pol
            if o == "lt":
                a, b = c.a
                if a.op == "int" and b.op == "int": return (TRUE if (a.a[0] < b.a[0]) == pol else FALSE), True
                if a is b: return (FALSE if pol else TRUE), True
                if a is INT(0) and b.op == "size": return T("empty", b.a[0]), not pol
                if b is INT(1) and a.op == "size": return T("empty", a.a[0]), pol
                if b is INT(0) and a.op == "size": return (FALSE if pol else TRUE), True
                return c, pol
            if o == "empty":
                x = c.a[0]
                if x.op == "coll": return (TRUE if ((len(x.a) == 0) == pol) else FALSE), True
                if x.op == "ext": return (FALSE if pol else TRUE), True
                return c, pol
            if o == "int": return (TRUE if (c.a[0] != 0) == pol else FALSE), True
            if o == "size": return T("empty", c.a[0]), not pol
            if o == "null": return (FALSE if pol else TRUE), True
            if o in ("addr", "new"): return (TRUE if pol else FALSE), True
            return c, pol

    def known(self, facts, c):
        a, pol = self.norm(c)
        if a is TRUE: return pol
        if a is FALSE: return not pol
        if a in facts: return facts[a] == pol
        if a.op == "eq":
            # eq(t, literal): if another literal equality is known true it is false
            t, l = a.a
            if l.op in ("int", "enum", "null"):
                for k, v in facts.items():
                    if v and k.op == "eq" and k.a[0] is t and k.a[1] is not l and k.a[1].op in ("int", "enum", "null"): return not pol
                if l.op == "int" and t.op == "size" and l.a[0] > 0 and facts.get(T("empty", t.a[0])): return not pol
            if l.op == "null" and facts.get(t) is not None: return (not facts[t]) == pol
        if a.op == "empty":
            for k, v in facts.items():
                if v and k.op == "eq" and k.a[0].op == "size" and k.a[0].a[0] is a.a[0] and k.a[1].op == "int": return (k.a[1].a[0] == 0) == pol
                if not v and k.op == "lt" and k.a[0].op == "size" and k.a[0].a[0] is a.a[0] and k.a[1].op == "int" and k.a[1].a[0] > 0: return False == pol
        if facts.get(T("eq", a, NULL)) is not None: return (not facts[T("eq", a, NULL)]) == pol
        return None

    def assume(self, st, c, want):
        """refines st by c == want; returns None if infeasible (may mutate st)"""
        k = self.known(st.facts, c)
        if k is not None: return st if k == want else None
        a, pol = self.norm(c)
        st.facts[a] = (pol == want)
        return st

    def fork(self, st, c):
        """[(state, truth)] for condition c"""
        k = self.known(st.facts, c)
        if k is not None: return [(st, k)]
        self.paths += 1
        if self.paths > self.MAXPATHS: raise TooComplex("too many abstract paths")
        s2 = st.copy()
        r = []
        if self.assume(st, c, True) is not None: r.append((st, True))
        if self.assume(s2, c, False) is not None: r.append((s2, False))
        return r

    # ------------------------------------------------------------------ entry
    def run(self, fn, this=None, args=None, st=None):
        """interprets fn on symbolic inputs; returns outcomes"""
        st = st or St()
        self.nfr = 0
        if fn.kind in ("method", "dtor", "conv", "ctor") and not fn.static and this is None:
            this = T("ld", IN("this"))
        vals = []
        for i, p in enumerate(fn.params or []):
            if args and i < len(args) and args[i] is not None: vals.append(args[i]); continue
            t = self.p.type(p["t"])
            n = p["n"] or "arg%d" % i
            vals.append(LV(T("lp", n)) if t.endswith("&") else IN(n))
        return self.call_body(fn, this, vals, st, None, 0)

    def call_body(self, fn, this, vals, st, caller, line):
        self.nfr += 1
        fr = Frame(fn, this, self.nfr, (caller.depth + 1) if caller else 0)
        for p, V in zip(fn.params or [], vals):
            t = self.p.type(p["t"])
            if t.endswith("&"): fr.env[p["v"]] = self.loc(V)
            else:
                l = T("lv", p["v"], fr.id)
                st.store[l] = self.rv(st, V)
                st.kids.pop(l, None)
                fr.env[p["v"]] = l
                d = self.dtors(p["cls"]) if p.get("cls") is not None and not t.endswith("*") else None
                if d: fr.scopes[0].append((l, d))
        outs = []
        sts = [st]
        if fn.kind == "ctor":
            for ini in fn.inits or []:
                nxt = []
                for s in sts:
                    for s2, k, V in self.exec_init(ini, s, fr):
                        if k == "n": nxt.append(s2)
                        else: outs.append(Out(k, V, s2, ini.get("l")))
                sts = nxt
        for s in sts:
            for s2, k, v in self.stmt(fn.body, s, fr):
                if k == "n" or k == "ret": outs.append(Out("ret", v if k == "ret" else VOID, s2))
                elif k == "throw": outs.append(Out("throw", v, s2))
                else: outs.append(Out("ret", VOID, s2))
        res = []
        for o in outs: res.extend(self.run_dtors(o, fr))
        return res

    def run_dtors(self, o, fr):
        """destroys by-value parameters of tracked classes"""
        todo = [(l, d) for l, d in fr.scopes[0]]
        return [Out(o.kind if k == "n" else k, o.val if k == "n" else v, s, o.line) for s, k, v in self.destroy([(o.st, "n", None)], todo, fr)] if todo else [o]
    def destroy(self, outs, todo, fr):
        """runs the destructors of `todo` (reverse order) on every outcome"""
        for l, d in reversed(todo):
            nxt = []
            for s, k, v in outs:
                if l not in s.store and l not in s.kids: nxt.append((s, k, v)); continue
                for o in self.call_body(d, l, [], s, fr, d.line):
                    o.st.store.pop(l, None); self._kill(o.st, l)
                    nxt.append((o.st, k, v))
            outs = nxt
        return outs
    def flush(self, outs, fr, mark):
        todo = fr.temps[mark:]
        if not todo: return outs
        del fr.temps[mark:]
        return self.destroy(outs, todo, fr)

    def exec_init(self, ini, st, fr):
        e = ini["e"]
        if ini.get("deleg") or "base" in ini:
            if e is None: return [(st, "n", None)]
            if e["k"] == "ctor":
                return [(s, k, v) for s, k, v in self.construct(e, st, fr, fr.this)]
            r = []
            for s, V in self.ev(e, st, fr): r.append((s, "n", None) if not self.isexc(V) else (s, "throw", V.a[0]))
            return r
        l = T("lf", fr.this, ini["f"])
        t = self.p.type(ini.get("t"))
        if e is None: return [(st, "n", None)]
        r = []
        for s, V in self.ev(e, st, fr):
            if self.isexc(V): r.append((s, "throw", V.a[0])); continue
            if t.endswith("&"):
                self.write(s, l, T("ref", self.loc(V)))
            else:
                self.write(s, l, self.materialise(s, V, fr))
            self.on_init(s, fr, ini, l)
            r.append((s, "n", None))
        return r
    def on_init(self, st, fr, ini, loc): pass

    def isexc(self, V): return isinstance(V, T) and V.op == "exc"

    def materialise(self, st, V, fr):
        v = self.rv(st, V)
        return v

    # ------------------------------------------------------------------ statements
    # stmt returns [(state, kind, value)] with kind in n|ret|throw|brk|cont|goto
    def block(self, ss, st, fr):
        cur, out = [st], []
        i = 0
        labels = {x["n"]: j for j, x in enumerate(ss) if x and x["k"] == "label"}
        pend = {}                                    # index -> states arriving by goto
        while i < len(ss):
            nxt = []
            for s in cur + pend.pop(i, []):
                for s2, k, v in self.stmt(ss[i], s, fr):
                    if k == "n": nxt.append(s2)
                    elif k == "goto" and v in labels and labels[v] > i: pend.setdefault(labels[v], []).append(s2)
                    else: out.append((s2, k, v))
            cur = nxt
            i += 1
            if not cur and not pend: break
        return out + [(s, "n", None) for s in cur]

    def stmt(self, s, st, fr):
        if s is None: return [(st, "n", None)]
        return getattr(self, "s_" + s["k"])(s, st, fr)
    def s_block(self, s, st, fr):
        fr.scopes.append([])
        outs = self.block(s["s"], st, fr)
        todo = fr.scopes.pop()
        if todo:
            seen, u = set(), []
            for l, d in todo:
                if l not in seen: seen.add(l); u.append((l, d))
            outs = self.destroy(outs, u, fr)
        return outs
    def s_null(self, s, st, fr): return [(st, "n", None)]
    def s_label(self, s, st, fr): return self.stmt(s["s"], st, fr)
    def s_goto(self, s, st, fr): return [(st, "goto", s["n"])]
    def s_break(self, s, st, fr): return [(st, "brk", None)]
    def s_continue(self, s, st, fr): return [(st, "cont", None)]
    def s_unk(self, s, st, fr):
        self.unknown.add("stmt " + s.get("c", "?")); return [(st, "n", None)]
    def s_expr(self, s, st, fr):
        if s["e"] is None: return [(st, "n", None)]
        m = len(fr.temps)
        return self.flush([(s2, "throw", V.a[0]) if self.isexc(V) else (s2, "n", None) for s2, V in self.ev(s["e"], st, fr)], fr, m)
    def s_ret(self, s, st, fr):
        if s.get("e") is None: return [(st, "ret", VOID)]
        isref = fr.fn.rt.endswith("&")
        r = []
        m = len(fr.temps)
        for s2, V in self.ev(s["e"], st, fr):
            if self.isexc(V): r.append((s2, "throw", V.a[0]))
            else: r.append((s2, "ret", V if isref else self.rv(s2, V)))
        return self.flush(r, fr, m)
    def bind(self, d, st, fr):
        """declares d; [(state, kind, v)]"""
        if d.get("static") and not d.get("ref") and not self.p.type(d.get("t")).startswith("const ") and not self.p.type(d.get("t")).endswith("const") and "const[" not in self.p.type(d.get("t")).replace(" ", ""):
            # a static local keeps its value between calls: its content at entry is unknown
            fr.env[d["v"]] = T("lp", "%s#%s::%s" % (fr.fn.qn, fr.fn.id, d["n"]))
            return [(st, "n", None)]
        l = T("lv", d["v"], fr.id)
        fr.env[d["v"]] = l
        dt = self.dtors(d["cls"]) if d.get("cls") is not None and not d.get("ref") and not d.get("static") else None
        if dt: fr.scopes[-1].append((l, dt))
        if d.get("e") is None:
            self._kill(st, l); st.store.pop(l, None)
            st.store[l] = EMPTYC if self.iscont(d) else T("uninit", d["n"])
            return [(st, "n", None)]
        r = []
        if d["e"]["k"] == "ctor" and not d.get("ref"):
            for s2, k, v in self.construct(d["e"], st, fr, l):
                r.append((s2, k, v))
            return r
        for s2, V in self.ev(d["e"], st, fr):
            if self.isexc(V): r.append((s2, "throw", V.a[0])); continue
            if d.get("ref"):
                nl = self.loc(V)
                self.rebind(s2, fr, d["v"], l, nl)
            else:
                self.write(s2, l, self.rv(s2, V))
            r.append((s2, "n", None))
        return r
    def rebind(self, st, fr, var, l, target):
        # a reference may designate different locations on different paths: kept in the state
        st.store[l] = T("ref", target)
        if self.writes is not None: self.writes.add(l)
    def iscont(self, d):
        c = d.get("cls")
        return False
    def s_decl(self, s, st, fr):
        sts, out = [st], []
        m = len(fr.temps)
        for d in s["d"]:
            nxt = []
            for x in sts:
                for s2, k, v in self.bind(d, x, fr):
                    (nxt.append(s2) if k == "n" else out.append((s2, k, v)))
            sts = nxt
        return self.flush(out + [(x, "n", None) for x in sts], fr, m)
    def cond(self, e, st, fr):
        """[(state, truth | exc term)]"""
        r = []
        for s, V in self.ev(e, st, fr):
            if self.isexc(V): r.append((s, V)); continue
            r.extend(self.fork(s, self.rv(s, V)))
        return r
    def s_if(self, s, st, fr):
        sts, out = [st], []
        if s.get("init"):
            nxt = []
            for s2, k, v in self.stmt(s["init"], st, fr): (nxt.append(s2) if k == "n" else out.append((s2, k, v)))
            sts = nxt
        if s.get("cv"):
            nxt = []
            for x in sts:
                for s2, k, v in self.bind(s["cv"], x, fr): (nxt.append(s2) if k == "n" else out.append((s2, k, v)))
            sts = nxt
        for x in sts:
            for s2, t in self.cond(s["c"], x, fr):
                if isinstance(t, T): out.append((s2, "throw", t.a[0]))
                elif t: out.extend(self.stmt(s["t"], s2, fr))
                elif s.get("e"): out.extend(self.stmt(s["e"], s2, fr))
                else: out.append((s2, "n", None))
        return out
    def s_switch(self, s, st, fr):
        out = []
        body = s["b"]["s"] if s["b"] and s["b"]["k"] == "block" else [s["b"]]
        # flatten labels
        flat = []
        for x in body:
            labs = []
            while x and x["k"] in ("case", "default"):
                labs.append(x["c"] if x["k"] == "case" else None); x = x["s"]
            flat.append((labs, x))
        for s2, V in self.ev(s["c"], st, fr):
            if self.isexc(V): out.append((s2, "throw", V.a[0])); continue
            v = self.rv(s2, V)
            rest = [s2]
            starts = []
            dflt = None
            for i, (labs, _) in enumerate(flat):
                for lab in labs:
                    if lab is None: dflt = i; continue
                    nr = []
                    for x in rest:
                        for x2, LVv in self.ev(lab, x, fr):
                            for x3, t in self.fork(x2, T("eq", v, self.rv(x2, LVv))):
                                (starts.append((x3, i)) if t else nr.append(x3))
                    rest = nr
            for x in rest: starts.append((x, dflt if dflt is not None else len(flat)))
            for x, i in starts:
                for s3, k, v3 in self.block([y for _, y in flat[i:]], x, fr):
                    out.append((s3, "n", None) if k == "brk" else (s3, k, v3))
        return out
    s_case = s_default = lambda self, s, st, fr: self.stmt(s["s"], st, fr)
    def s_try(self, s, st, fr):
        out = []
        for s2, k, v in self.stmt(s["b"], st, fr):
            if k != "throw": out.append((s2, k, v)); continue
            handled = False
            for h in s["h"]:
                if self.catches(h, v):
                    if h.get("v") is not None: fr.env[h["v"]] = self.loc(v) if isinstance(v, T) else v.loc
                    out.extend(self.stmt(h["b"], s2, fr)); handled = True; break
            if not handled: out.append((s2, k, v))
        return out
    def catches(self, h, v):
        if "t" not in h: return True
        t = self.p.type(h["t"]).replace("const ", "").rstrip("&").strip()
        ty = v.a[0] if isinstance(v, T) and v.op in ("thrown",) else None
        return ty is None or ty == t or t == "std::exception"

    # ------------------------------------------------------------------ loops
    def s_while(self, s, st, fr):
        return self.loop(st, fr, s, lambda x: self.loopcond(s, x, fr), lambda x: self.stmt(s["b"], x, fr), None)
    def loopcond(self, s, st, fr):
        if s.get("c") is None: return [(st, True)]
        return self.cond(s["c"], st, fr)
    def s_for(self, s, st, fr):
        out = []
        for s2, k, v in (self.stmt(s["init"], st, fr) if s.get("init") else [(st, "n", None)]):
            if k != "n": out.append((s2, k, v)); continue
            out.extend(self.loop(s2, fr, s, lambda x: self.loopcond(s, x, fr), lambda x: self.stmt(s["b"], x, fr),
                                 (lambda x: self.ev(s["inc"], x, fr)) if s.get("inc") else None))
        return out
    def s_do(self, s, st, fr):
        return self.loop(st, fr, s, lambda x: self.loopcond(s, x, fr), lambda x: self.stmt(s["b"], x, fr), None, post=True)
    def s_rfor(self, s, st, fr):
        out = []
        for s2, V in self.ev(s["r"], st, fr):
            if self.isexc(V): out.append((s2, "throw", V.a[0])); continue
            out.extend(self.foreach(s2, fr, s, V, lambda x, EV, fr=fr: self.iterbind(s, x, fr, EV)))
        return out
    def iterbind(self, s, st, fr, EV):
        d = s["v"]
        l = T("lv", d["v"], fr.id)
        fr.env[d["v"]] = l
        if d.get("ref"): st.store[l] = T("ref", self.loc(EV))
        else: self.write(st, l, self.rv(st, EV))
        return self.stmt(s["b"], st, fr)

    def range_of(self, st, V):
        """container term (and location) designated by a range expression"""
        if isinstance(V, LV): return self.read(st, V.loc), V.loc
        return V, None

    def literal_items(self, c):
        if c.op == "coll" and len(c.a) <= 8 and not any(self.generic(x) for x in c.a): return list(c.a)
        return None
    def generic(self, x): return False

    def resolve_items(self, c):
        """the possible element forms of a container built by the analysed code, or None if unknown.
        [(item term, facts)]"""
        seen, items = set(), []
        def go(x, facts):
            if x in seen: return True
            seen.add(x)
            if x.op == "coll":
                for y in x.a: items.append((y, facts))
                return True
            if x.op == "ext":
                items.append((x.a[1], facts)); return go(x.a[0], facts)
            if x.op == "phi" and x in self.phis:
                ph = self.phis[x]
                if not go(ph["init"], {}): return False
                for v, f in ph["back"]:
                    if not go(v, f): return False
                return True
            return False
        if c.op in ("ext", "phi") and go(c, {}): return items
        return None

    def foreach(self, st, fr, s, V, bodyf, start="b", stop="e"):
        c, cl = self.range_of(st, V)
        lits = self.literal_items(c) if start == "b" else None
        if lits is not None:
            cur, out = [st], []
            for i, x in enumerate(lits):
                nxt = []
                for y in cur:
                    ev = LV(T("le", cl, INT(i))) if cl is not None else x
                    for s2, k, v in bodyf(y, ev):
                        if k in ("n", "cont"): nxt.append(s2)
                        elif k == "brk": out.append((s2, "n", None))
                        else: out.append((s2, k, v))
                cur = nxt
            return out + [(x, "n", None) for x in cur]
        k = sum(1 for (x, _) in self.loops if x is c)
        def body(x):
            pos = T("pos", k)
            items = self.resolve_items(c)
            if items is None:
                ev = LV(T("le", cl, pos)) if cl is not None else T("elem", c, k)
                return bodyf(x, ev)
            out = []
            for it, facts in items:
                y = x.copy()
                ok = True
                for a, b in facts.items():
                    if self.assume(y, a, b) is None: ok = False; break
                if ok:
                    out.extend(bodyf(y, it))
            return out
        def condf(x):
            return self.fork(x, T("not", T("atend", T("it", c, T("pos", k)))))
        return self.loop(st, fr, s, condf, body, None, src=(c, k), start=start, stop=stop)

    def loop(self, st, fr, s, condf, bodyf, incf, post=False, src=None, start=None, stop=None):
        self.nloop += 1
        lid = self.nloop
        rec = LoopRec(lid, s.get("l") if isinstance(s, dict) else s)
        rec.file = fr.fn.rel
        if src: rec.src, rec.start, rec.stop = src[0], start, stop
        W = set()
        outer_writes = self.writes
        base_eff = list(st.eff)
        if src: self.loops.append(src)
        npos = [0]
        inv, bl = set(), set()
        for rnd in range(20):
            if rnd == 0: nl0, fr0 = self.nloop, self.nfr
            else: self.nloop, self.nfr = nl0, fr0
            h = st.copy()
            h.eff = []
            base_facts = dict(h.facts)
            phis, its = {}, {}
            for l in sorted(W - inv, key=repr):
                if self.is_local_new(l, st): continue
                cur = self.read(st, l)
                if cur.op == "ref": continue
                if cur.op == "it" and cur.a[1] != "e":
                    k = sum(1 for (x, _) in self.loops if x is cur.a[0])
                    v = T("it", cur.a[0], T("pos", k))
                    its[l] = (cur, v)
                    self._kill(h, l); h.store[l] = v
                    continue
                v = T("phi", lid, show(l) if l.op != "lv" else self.varname(l))
                phis[v] = {"init": cur, "back": [], "loc": l}
                self._kill(h, l); h.store[l] = v
                for x2 in [l]:
                    y = x2
                    while y.op in ("lf", "le"): h.kids.setdefault(y.a[0], set()).add(y); y = y.a[0]
            self.phis.update(phis)
            for v, ph in phis.items():
                if ph["init"] is INT(0): self.idxpos = dict(self.idxpos); self.idxpos[v] = 0
            pushed = 0
            for l, (cur, v) in its.items():
                self.loops.append((cur.a[0], v.a[1].a[0])); pushed += 1
                if rec.src is None: rec.src, rec.start = cur.a[0], cur.a[1]
            self.writes = set()
            iters, exits, outs = [], [], []
            if post:
                ends = []
                for x, k, v in bodyf(h):
                    if k in ("n", "cont"):
                        for y, t in condf(x):
                            if isinstance(t, T): outs.append((y, "throw", t.a[0]))
                            elif t: ends.append(y)
                            else: exits.append(y); iters.append(Iter("exit", self.delta(base_facts, y.facts), list(y.eff), y))
                    elif k == "brk": exits.append(x); iters.append(Iter("brk", self.delta(base_facts, x.facts), list(x.eff), x))
                    else: outs.append((x, k, v))
            else:
                ends = []
                for x, t in condf(h):
                    if isinstance(t, T): outs.append((x, "throw", t.a[0])); continue
                    if not t: exits.append(x); continue
                    for y, k, v in bodyf(x):
                        if k in ("n", "cont"):
                            if incf:
                                for z, V in incf(y):
                                    if self.isexc(V): outs.append((z, "throw", V.a[0]))
                                    else: ends.append(z)
                            else: ends.append(y)
                        elif k == "brk": exits.append(y); iters.append(Iter("brk", self.delta(base_facts, y.facts), list(y.eff), y))
                        else: outs.append((y, k, v))
            for _ in range(pushed): self.loops.pop()
            w = self.writes
            # a location that every back edge leaves as it was is invariant: no widening needed
            new = {ph["loc"] for v, ph in phis.items() if ph["loc"] not in bl and all(self.read(x, ph["loc"]) is v for x in ends)}
            bad = {l for l in inv if not self.is_local_new(l, st) and any(self.read(x, l) is not self.read(st, l) for x in ends)}
            if w <= W and not new and not bad: break
            W |= w
            inv |= new; inv -= bad; bl |= bad
        else:
            if src: self.loops.pop()
            self.writes = outer_writes
            raise TooComplex("loop did not stabilise at %s:%s" % (fr.fn.rel, rec.line))
        if src: self.loops.pop()
        self.writes = outer_writes
        if self.writes is not None: self.writes |= W
        for x in ends:
            iters.append(Iter("end", self.delta(base_facts, x.facts), list(x.eff), x))
            for v, ph in phis.items(): ph["back"].append((self.read(x, ph["loc"]), self.delta(base_facts, x.facts)))
        for x, k, v in outs: iters.append(Iter(k, self.delta(base_facts, x.facts), list(x.eff), x, v))
        rec.iters, rec.phis, rec.its = iters, phis, its
        rec.writes = W
        out = []
        for x in exits:
            e = x.eff
            x.eff = base_eff + [rec] + e
            out.append((x, "n", None))
        for x, k, v in outs:
            x.eff = base_eff + [rec] + x.eff
            out.append((x, k, v))
        return out
    def varname(self, l): return "v%s_%s" % (l.a[0], l.a[1])
    def is_local_new(self, l, st):
        r = root(l)
        return r.op == "lv" and r not in st.store
    def delta(self, base, f): return {k: v for k, v in f.items() if k not in base}

    # ------------------------------------------------------------------ expressions: ev -> [(state, V)]
    def ev(self, e, st, fr):
        if e is None: return [(st, VOID)]
        return getattr(self, "e_" + e["k"])(e, st, fr)
    def evs(self, es, st, fr):
        """evaluates a list left to right; [(state, [V])] ; an exception is returned as ([exc])"""
        cur, out = [(st, [])], []
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, V in self.ev(e, s, fr):
                    if self.isexc(V): out.append((s2, V))
                    else: nxt.append((s2, vs + [V]))
            cur = nxt
        return out + cur
    def map1(self, e, st, fr, f):
        r = []
        for s, V in self.ev(e, st, fr): r.append((s, V) if self.isexc(V) else (s, f(s, V)))
        return r
    def deref_ref(self, st, l):
        v = st.store.get(l)
        n = 0
        while v is not None and v.op == "ref" and n < 20: l = v.a[0]; v = st.store.get(l); n += 1
        return l
    def e_var(self, e, st, fr):
        if "cval" in e: return [(st, INT(e["cval"]))]
        l = fr.env.get(e["v"])
        if l is None:
            l = T("lg", e.get("global") or e["n"])
        return [(st, LV(self.deref_ref(st, l)))]
    def e_this(self, e, st, fr):
        return [(st, self.addr(fr.this) if fr.this is not None else IN("this"))]
    def addr(self, l):
        if l.op == "tmp" and l.a[0].op == "fn": return l.a[0]
        if l.op == "ld": return l.a[0]
        return T("addr", l)
    def deref(self, p):
        """pointer value -> location"""
        if p.op == "addr": return p.a[0]
        if p.op == "it": return T("tmp", T("elem", p.a[0], p.a[1].a[0])) if isinstance(p.a[1], T) and p.a[1].op == "pos" else T("tmp", self.itelem(p))
        return T("ld", p)
    def itelem(self, it):
        c, pos = it.a[0], it.a[1]
        if pos == "b": return T("front", c) if not (c.op == "coll" and c.a) else c.a[0]
        if isinstance(pos, T) and pos.op == "off":
            if c.op == "coll" and 0 <= pos.a[0] < len(c.a): return c.a[pos.a[0]]
            return T("at", c, INT(pos.a[0]))
        if isinstance(pos, T) and pos.op == "key": return T("lookup", c, pos.a[0])
        return T("deref", it)
    def e_mem(self, e, st, fr):
        r = []
        for s, V in self.ev(e["b"], st, fr):
            if self.isexc(V): r.append((s, V)); continue
            if e.get("arrow"):
                l = self.deref(self.rv(s, V))
            else: l = self.loc(V)
            l = self.deref_ref(s, T("lf", l, e["n"]))
            if e.get("ref") and l.op == "lf" and l not in s.store:
                fv = self.read(s, l)
                if fv.op == "ref": l = fv.a[0]
            r.append((s, LV(l)))
        return r
    def e_un(self, e, st, fr):
        op = e["op"]
        r = []
        for s, V in self.ev(e["e"], st, fr):
            if self.isexc(V): r.append((s, V)); continue
            if op == "*": r.append((s, LV(self.deref_ref(s, self.deref(self.rv(s, V)))))); continue
            if op == "&": r.append((s, self.addr(self.loc(V)))); continue
            v = self.rv(s, V)
            if op == "!": r.append((s, T("not", v) if v.op != "bool" else (FALSE if v.a[0] else TRUE)))
            elif op in ("++", "--"):
                n = self.advance(v, 1 if op == "++" else -1)
                self.assign(s, self.loc(V), n, e, fr)
                r.append((s, v if e.get("post") else V))
            elif op == "-": r.append((s, INT(-v.a[0]) if v.op == "int" else T("neg", v)))
            elif op == "+": r.append((s, v))
            else: r.append((s, T("un", op, v)))
        return r
    def advance(self, v, n):
        if v.op == "int": return INT(v.a[0] + n)
        if v.op == "it":
            pos = v.a[1]
            if pos == "b": return T("it", v.a[0], T("off", n))
            if isinstance(pos, T) and pos.op == "off": return T("it", v.a[0], "b" if pos.a[0] + n == 0 else T("off", pos.a[0] + n))
            if isinstance(pos, T) and pos.op == "pos": return T("it", v.a[0], T("adv", pos, n))
            if isinstance(pos, T) and pos.op == "adv": return T("it", v.a[0], T("adv", pos.a[0], pos.a[1] + n)) if pos.a[1] + n else T("it", v.a[0], pos.a[0])
            if pos == "e": return T("it", v.a[0], T("eoff", n))
            return T("it", v.a[0], T("adv", pos, n))
        return self.arith("+", v, INT(n))
    def arith(self, op, x, y):
        if x.op == "int" and y.op == "int":
            a, b = x.a[0], y.a[0]
            try:
                if op == "+": return INT(a + b)
                if op == "-": return INT(a - b)
                if op == "*": return INT(a * b)
                if op == "/": return INT(a // b)
                if op == "%": return INT(a % b)
            except ZeroDivisionError: pass
        if op in ("+", "-") and y.op == "int" and y.a[0] == 0: return x
        if op == "+" and x.op == "int" and x.a[0] == 0: return y
        if op in ("+", "-") and y.op == "int" and x.op == "add" and x.a[1].op == "int":
            return self.arith("+", x.a[0], INT(x.a[1].a[0] + (y.a[0] if op == "+" else -y.a[0])))
        if op == "-" and y.op == "int": return T("add", x, INT(-y.a[0]))
        if op == "+":
            if x.op == "int": x, y = y, x
            elif y.op != "int" and repr(x) > repr(y): x, y = y, x
            return T("add", x, y)
        if op == "*":
            if repr(x) > repr(y): x, y = y, x
            return T("mul", x, y)
        return T("bin", op, x, y)
    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            r = []
            for s, V in self.ev(e["x"], st, fr):
                if self.isexc(V): r.append((s, V)); continue
                for s2, t in self.fork(s, self.rv(s, V)):
                    if (op == "&&") == t: r.extend((s3, V3 if self.isexc(V3) else self.rv(s3, V3)) for s3, V3 in self.ev(e["y"], s2, fr))
                    else: r.append((s2, TRUE if t else FALSE))
            return r
        if op == ",":
            r = []
            for s, V in self.ev(e["x"], st, fr): r.extend([(s, V)] if self.isexc(V) else self.ev(e["y"], s, fr))
            return r
        r = []
        if op == "=" :
            for s, V in self.ev(e["y"], st, fr):
                if self.isexc(V): r.append((s, V)); continue
                y = self.rv(s, V)
                for s2, X in self.ev(e["x"], s, fr):
                    if not self.isexc(X): self.assign(s2, self.loc(X), y, e, fr)
                    r.append((s2, X))
            return r
        for s, vs in self.evs([e["x"], e["y"]], st, fr):
            if self.isexc(vs): r.append((s, vs)); continue
            x, y = self.rv(s, vs[0]), self.rv(s, vs[1])
            if op in CMP: r.append((s, self.cmp(op, x, y)))
            elif op.endswith("=") and op not in CMP:
                if x.op == "it" and y.op == "int": v = self.advance(x, y.a[0] if op[0] == "+" else -y.a[0])
                else: v = self.arith(op[:-1], x, y)
                self.assign(s, self.loc(vs[0]), v, e, fr)
                r.append((s, vs[0]))
            else:
                if x.op == "it" and y.op == "int" and op in "+-": r.append((s, self.advance(x, y.a[0] if op == "+" else -y.a[0])))
                elif op == "+" and self.isptr(e.get("t")):
                    if self.isptr(e["y"].get("t")): x, y = y, x
                    r.append((s, x if y is INT(0) else T("padd", x, y)))
                elif op == "-" and self.isptr(e.get("t")):
                    r.append((s, x if y is INT(0) else T("padd", x, self.arith("-", INT(0), y))))
                else: r.append((s, self.arith(op, x, y)))
        return r
    def assign(self, st, loc, v, e, fr):
        self.write(st, loc, v)
        if root(loc).op not in ("lv", "tmp"): self.emit(st, "write", "=", None, (v,), (loc,), e.get("l"), fr)
    def isptr(self, t):
        t = self.p.type(t)
        return t.endswith("*") or t.endswith("*const") or "(*" in t
    def cmp(self, op, x, y):
        if x is y: return TRUE if op in ("==", "<=", ">=") else FALSE
        if x.op == "int" and y.op == "int" and isinstance(x.a[0], int) and isinstance(y.a[0], int):
            a, b = x.a[0], y.a[0]
            return TRUE if {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op] else FALSE
        return T(CMP[op], x, y)
    def e_cond(self, e, st, fr):
        r = []
        for s, t in self.cond(e["c"], st, fr):
            if isinstance(t, T): r.append((s, t)); continue
            r.extend(self.ev(e["x"] if t else e["y"], s, fr))
        return r
    def e_idx(self, e, st, fr):
        r = []
        for s, vs in self.evs([e["b"], e["i"]], st, fr):
            if self.isexc(vs): r.append((s, vs)); continue
            p, i = self.rv(s, vs[0]), self.rv(s, vs[1])
            r.append((s, LV(self.deref(p) if i is INT(0) else T("ld", T("padd", p, i)))))
        return r
    def e_int(self, e, st, fr): return [(st, INT(e["v"]))]
    def e_bool(self, e, st, fr): return [(st, TRUE if e["v"] else FALSE)]
    def e_float(self, e, st, fr): return [(st, T("float", e["v"]))]
    def e_str(self, e, st, fr): return [(st, T("str", e["v"]))]
    def e_null(self, e, st, fr): return [(st, NULL)]
    def e_zero(self, e, st, fr):
        t = self.p.type(e["t"])
        if t.endswith("*"): return [(st, NULL)]
        if t == "bool": return [(st, FALSE)]
        return [(st, INT(0))]
    def e_enum(self, e, st, fr): return [(st, T("enum", e["n"]))]
    def e_sizeof(self, e, st, fr): return [(st, T("sizeof", self.p.type(e["at"])) if e.get("w") != "alignof" else T("alignof", self.p.type(e["at"])))]
    def e_typeid(self, e, st, fr):
        if e.get("e") is None: return [(st, T("typeid", self.p.type(e.get("ot"))))]
        return [(s, V if self.isexc(V) else T("typeid", self.rv(s, V))) for s, V in self.ev(e["e"], st, fr)]
    def e_fref(self, e, st, fr): return [(st, T("fn", e["f"]))]
    def e_mref(self, e, st, fr): return [(st, T("mfn", e["f"]))]
    def e_unk(self, e, st, fr):
        self.unknown.add("expr " + e.get("c", "?")); return [(st, T("unk", e.get("c", "?"), e.get("l", 0)))]
    def e_pdtor(self, e, st, fr): return [(s, V if self.isexc(V) else VOID) for s, V in self.ev(e["b"], st, fr)]
    def e_cast(self, e, st, fr):
        if e["s"].startswith("CXXStatic") and self.p.type(e["t"]) == "void": return self.ev(e["e"], st, fr)
        r = []
        for s, V in self.ev(e["e"], st, fr):
            if self.isexc(V): r.append((s, V)); continue
            r.append((s, self.castv(s, V, e)))
        return r
    def castv(self, st, V, e):
        if isinstance(V, T) and V.op in ("int", "float") and e.get("c") in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating"): return V if V.op == "int" else T("trunc", V)
        if e.get("c") == "FloatingToIntegral": return T("trunc", self.rv(st, V))
        return V
    def e_icast(self, e, st, fr):
        r = []
        for s, V in self.ev(e["e"], st, fr): r.append((s, V) if self.isexc(V) else (s, self.castv(s, V, {"c": "IntegralCast"})))
        return r
    def e_throw(self, e, st, fr):
        if e.get("e") is None: return [(st, T("exc", T("rethrow")))]
        r = []
        for s, V in self.ev(e["e"], st, fr):
            if self.isexc(V): r.append((s, V)); continue
            ty = self.p.type(e["t"]).replace("const ", "")
            s.eff.append(Effect("throw", ty, None, (self.rv(s, V),), (), e["l"], fr.fn.rel, dict(s.facts), None, fr.fn))
            r.append((s, T("exc", T("thrown", ty, self.rv(s, V)))))
        return r
    def e_ilist(self, e, st, fr):
        r = []
        for s, vs in self.evs(e["a"], st, fr):
            if self.isexc(vs): r.append((s, vs)); continue
            vals = [self.rv(s, v) for v in vs]
            if e.get("cls") is not None and e["cls"] >= 0:
                c = self.p.classes[e["cls"]]
                if c.fields and len(c.fields) == len(vals):
                    d = tuple(sorted((f["n"], v) for f, v in zip(c.fields, vals)))
                    r.append((s, T("obj", c.qn, d))); continue
                r.append((s, T("ctor", c.qn, *vals))); continue
            t = self.p.type(e["t"])
            if len(vals) == 1 and not t.endswith("]"): r.append((s, vs[0])); continue
            if not vals and not t.endswith("]"): r.append((s, NULL if t.endswith("*") else INT(0))); continue
            r.append((s, T("coll", *vals)))
        return r
    def e_stdilist(self, e, st, fr): return self.ev(e["e"], st, fr)
    def e_lambda(self, e, st, fr):
        env = dict(fr.env)
        cur = [st]
        self.nfr += 1
        fid = self.nfr
        for c in e["cap"]:
            if c.get("this") or c.get("byref"):
                continue
            if "v" in c and c.get("e") is not None:
                nxt = []
                for s in cur:
                    for s2, V in self.ev(c["e"], s, fr):
                        l = T("lv", c["v"], fid)
                        s2.store[l] = self.rv(s2, V)
                        env[c["v"]] = l
                        nxt.append(s2)
                cur = nxt
        t = T("closure", e["cls"], e.get("l", 0), fid)
        self.closures[t] = (e["ops"], env, fr.this)
        return [(s, t) for s in cur]
    def e_new(self, e, st, fr):
        r = []
        for s, ps in self.evs((e.get("p") or []) + ([e["n"]] if e.get("n") else []), st, fr):
            if self.isexc(ps): r.append((s, ps)); continue
            pv = [self.rv(s, x) for x in ps]
            ty = self.p.type(e["at"])
            if e.get("array"):
                n = pv[-1]
                t = T("newarr", ty, n, s.tick); s.tick += 1
                self.emit(s, "new[]", ty, None, (n,), (), e["l"], fr, res=t)
                r.append((s, t)); continue
            if e.get("p"):
                p = pv[0]
                l = T("ld", p) if p.op != "addr" else p.a[0]
                tgt = p
            else:
                tgt = T("new", ty, s.tick); s.tick += 1
                l = T("ld", tgt)
                self.emit(s, "new", ty, None, (), (), e["l"], fr, res=tgt)
            i = e.get("i")
            if i is not None and i["k"] == "ctor":
                for s2, k, v in self.construct(i, s, fr, l, placed=tgt if e.get("p") else None, line=e["l"]):
                    r.append((s2, tgt) if k == "n" else (s2, T("exc", v)))
            elif i is not None:
                for s2, V in self.ev(i, s, fr):
                    if self.isexc(V): r.append((s2, V)); continue
                    self.write(s2, l, self.rv(s2, V))
                    if e.get("p"): self.emit(s2, "construct", ty, None, (self.rv(s2, V),), (l,), e["l"], fr)
                    r.append((s2, tgt))
            else: r.append((s, tgt))
        return r
    def e_delete(self, e, st, fr):
        r = []
        for s, V in self.ev(e["e"], st, fr):
            if self.isexc(V): r.append((s, V)); continue
            self.emit(s, "delete[]" if e.get("array") else "delete", "delete", None, (self.rv(s, V),), (), e["l"], fr)
            r.append((s, VOID))
        return r

    # ------------------------------------------------------------------ construction
    def e_ctor(self, e, st, fr):
        if e.get("ck") in ("copy", "move") and e["a"]:
            pol = self.ctor_policy(e)
            if pol != "inline":
                r = []
                for s, V in self.ev(e["a"][0], st, fr):
                    if self.isexc(V): r.append((s, V)); continue
                    v = self.rv(s, V)
                    if e["ck"] == "move" and not e.get("elid") and isinstance(V, LV): self.moved(s, V.loc, v, e)
                    r.append((s, v))
                return r
        self.nfr += 1
        fr.ntemps += 1
        l = T("lv", "t%s_%s" % (e.get("l"), e["f"]), self.nfr)
        r = []
        d = self.dtors(e["cls"])
        if d: fr.temps.append((l, d))
        for s, k, v in self.construct(e, st, fr, l):
            if k != "n": r.append((s, T("exc", v))); continue
            r.append((s, LV(l) if d else self.read(s, l)))
        return r
    def ctor_policy(self, e):
        fn = self.p.fns[e["f"]]
        if e.get("elid"): return "value"
        return self.policy(fn) or "value"
    def moved(self, st, loc, v, e):
        if v.op in ("int", "bool", "moved", "null"): return
        self.write(st, loc, T("moved", v))
    def construct(self, e, st, fr, l, placed=None, line=None):
        """constructs into location l; [(state, 'n'|'throw', v)]"""
        fn = self.p.fns[e["f"]]
        cls = self.p.classes[e["cls"]]
        if e.get("ck") in ("copy", "move") and e["a"] and self.ctor_policy(e) != "inline":
            r = []
            for s, V in self.ev(e["a"][0], st, fr):
                if self.isexc(V): r.append((s, "throw", V.a[0])); continue
                v = self.rv(s, V)
                if e["ck"] == "move" and not e.get("elid") and isinstance(V, LV): self.moved(s, V.loc, v, e)
                self.write(s, l, v)
                if placed is not None: self.emit(s, "construct", cls.qn, fn, (v,), (l,), line or e["l"], fr)
                r.append((s, "n", None))
            return r
        r = []
        for s, vs in self.evs(e["a"], st, fr):
            if self.isexc(vs): r.append((s, "throw", vs.a[0])); continue
            r.extend(self.construct_with(fn, cls, vs, s, fr, l, placed, line or e["l"]))
        return r
    def construct_with(self, fn, cls, vs, s, fr, l, placed, line):
        pol = self.policy(fn)
        h = self.prims.get(fn.qn)
        if h:
            res = h(self, fn, None, vs, s, fr, line)
            if res is not None:
                r = []
                for s2, V in res:
                    if self.isexc(V): r.append((s2, "throw", V.a[0])); continue
                    self.write(s2, l, self.rv(s2, V)); r.append((s2, "n", None))
                return r
        if fn.body is not None and pol not in ("prim", "ignore") and (fr is None or fr.depth < self.MAXDEPTH):
            args = [self.rv(s, v) for v in vs]
            if placed is not None: self.emit(s, "construct", cls.qn, fn, args, (l,), line, fr)
            self._kill(s, l)
            s.store[l] = T("obj", cls.qn, ())
            r = []
            for o in self.call_body(fn, l, vs, s, fr, line):
                if o.kind == "throw": r.append((o.st, "throw", o.val))
                else: r.append((o.st, "n", None))
            return r
        v = self.ctor_value(fn, cls, vs, s, fr, line)
        if placed is not None: self.emit(s, "construct", cls.qn, fn, [self.rv(s, x) for x in vs], (l,), line, fr)
        self.write(s, l, v)
        return [(s, "n", None)]
    def ctor_value(self, fn, cls, vs, s, fr, line):
        vals = [self.rv(s, x) for x in vs]
        q = cls.qn
        if q in CONTAINERS:
            if not vals: return EMPTYC
            for v in vals:
                if v.op in ("coll", "ext"): return v
            if len(vals) >= 2 and vals[0].op == "it" and vals[1].op == "it" and vals[0].a[0] is vals[1].a[0] and vals[0].a[1] == "b" and vals[1].a[1] == "e": return vals[0].a[0]
            if all(not isinstance(v, T) or v.op not in ("phi", "in", "elem", "fld", "call") for v in vals): return EMPTYC
            if len(vals) == 1 and not cls.qn.startswith("std::basic_string"):
                pt = self.p.type(fn.params[0]["t"]) if fn.params else ""
                if cls.qn.split("::")[-1] in pt: return vals[0]
                return EMPTYC
            if cls.qn.startswith("std::basic_string"): return T("ctor", q, *vals)
            if vals and vals[0].op == "it": return T("ctor", q, *vals)
            return EMPTYC
        if q == "std::pair" and len(vals) == 2: return T("pair", *vals)
        if q in ("std::reference_wrapper",) and len(vals) == 1: return vals[0]
        if q in ITERS and len(vals) == 1: return vals[0]
        if q in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr"):
            if not vals: return NULL
            return vals[0]
        return T("ctor", q, *vals)

    # ------------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        es = []
        hasobj = e.get("o") is not None
        if e.get("f") is None:
            r = []
            for s, vs in self.evs([e["fe"]] + e["a"], st, fr):
                if self.isexc(vs): r.append((s, vs)); continue
                r.extend(self.call_value(self.rv(s, vs[0]), vs[1:], s, fr, e))
            return r
        fn = self.p.fns[e["f"]]
        r = []
        # an assignment operator evaluates its right operand first; the order does not matter to the domain
        for s, vs in self.evs(([e["o"]] if hasobj else []) + e["a"], st, fr):
            if self.isexc(vs): r.append((s, vs)); continue
            obj = None
            if hasobj:
                obj, vs = vs[0], vs[1:]
                if e.get("arrow"): obj = LV(self.deref_ref(s, self.deref(self.rv(s, obj))))
            r.extend(self.call(fn, obj, vs, s, fr, e.get("l")))
        return r
    def call_value(self, f, vs, st, fr, e):
        line = e.get("l") if isinstance(e, dict) else e
        if f.op == "closure":
            ops, env, this = self.closures[f]
            cands = [self.p.fns[i] for i in ops if self.p.fns[i].body is not None and len(self.p.fns[i].params or []) == len(vs)]
            if cands: return self.call_closure(cands[0], f, vs, st, fr, line)
        if f.op == "fn": return self.call(self.p.fns[f.a[0]], None, vs, st, fr, line)
        t = T("callv", f, *[self.rv(st, v) for v in vs])
        self.emit(st, "callv", show(f), None, (f,) + tuple(self.rv(st, v) for v in vs), (), line, fr, res=t)
        return [(st, t)]
    def call_closure(self, fn, f, vs, st, fr, line):
        ops, env, this = self.closures[f]
        self.nfr += 1
        nf = Frame(fn, this, self.nfr, fr.depth + 1)
        nf.env = dict(env)
        for p, V in zip(fn.params or [], vs):
            t = self.p.type(p["t"])
            if t.endswith("&"): nf.env[p["v"]] = self.loc(V)
            else:
                l = T("lv", p["v"], nf.id); st.store[l] = self.rv(st, V); nf.env[p["v"]] = l
        r = []
        for s, k, v in self.stmt(fn.body, st, nf):
            r.append((s, T("exc", v)) if k == "throw" else (s, v if k == "ret" else VOID))
        return r
    def call(self, fn, obj, vs, st, fr, line):
        self.calls_seen.add(fn.id)
        h = self.prims.get(fn.qn)
        if h is not None:
            res = h(self, fn, obj, vs, st, fr, line)
            if res is not None: return res
        pol = self.policy(fn)
        if pol == "ignore": return [(st, VOID)]
        if fn.klass is not None and fn.klass.islambda and obj is not None and fn.name == "operator()":
            f = self.rv(st, obj)
            if f.op == "closure": return self.call_closure(fn, f, vs, st, fr, line)
        if fn.mine:
            if fn.ck in ("copyassign", "moveassign") and pol != "inline":
                v = self.rv(st, vs[0])
                if fn.ck == "moveassign" and isinstance(vs[0], LV): self.moved(st, vs[0].loc, v, None)
                self.assign(st, self.loc(obj), v, {"l": line}, fr)
                return [(st, obj)]
            if fn.kind == "dtor":
                if pol == "inline" and fn.body is not None: pass
                else:
                    self.emit(st, "dtor", fn.qn, fn, (self.rv(st, obj),), (self.loc(obj),), line, fr)
                    return [(st, VOID)]
            if fn.body is not None and pol != "prim" and not fn.virtual and fr.depth < self.MAXDEPTH and not self.recursive(fn, fr):
                r = []
                for o in self.call_body(fn, self.loc(obj) if obj is not None else None, vs, st, fr, line):
                    r.append((o.st, T("exc", o.val)) if o.kind == "throw" else (o.st, o.val))
                return r
            return self.opaque(fn, obj, vs, st, fr, line)
        return self.std(fn, obj, vs, st, fr, line)
    def recursive(self, fn, fr): return False
    def opaque(self, fn, obj, vs, st, fr, line):
        args = ([self.rv(st, obj)] if obj is not None else []) + [self.rv(st, v) for v in vs]
        locs = ([self.loc(obj)] if obj is not None else []) + [self.loc(v) if isinstance(v, LV) else None for v in vs]
        t = T("call", fn.qn, *args)
        self.emit(st, "call", fn.qn, fn, args, locs, line, fr, res=t)
        if fn.mine and obj is not None and not fn.const and fn.kind == "method" and isinstance(obj, LV) and self.clobbers(fn):
            self.write(st, obj.loc, T("after", fn.name, self.rv(st, obj), *args[1:]))
        if fn.rt.endswith("&") or True: return [(st, t)]
    def clobbers(self, fn): return False

    # ------------------------------------------------------------------ std / boost models
    def std(self, fn, obj, vs, st, fr, line):
        n = fn.name
        q = fn.qn
        # dispatch
        m = getattr(self, "m_" + n, None) if obj is not None else getattr(self, "f_" + n, None)
        if n.startswith("operator"):
            return self.std_op(fn, n[8:].strip(), obj, vs, st, fr, line)
        if n == "(conv)": return [(st, self.rv(st, obj))]
        if n == "(dtor)": 
            self.emit(st, "dtor", q, fn, (self.rv(st, obj),), (self.loc(obj),), line, fr)
            return [(st, VOID)]
        if m is not None:
            r = m(fn, obj, vs, st, fr, line)
            if r is not None: return r
        # unknown: pure if const method or free function
        args = ([self.rv(st, obj)] if obj is not None else []) + [self.rv(st, v) for v in vs]
        t = T("call", q, *args)
        self.emit(st, "std", q, fn, args, ([self.loc(obj)] if obj is not None else []), line, fr, res=t)
        if obj is not None and not fn.const and isinstance(obj, LV): self.write(st, obj.loc, T("mut", n, *args))
        return [(st, t)]

    def std_op(self, fn, op, obj, vs, st, fr, line):
        allv = ([obj] if obj is not None else []) + list(vs)
        vals = [self.rv(st, v) for v in allv]
        if op in CMP and len(allv) == 2:
            return [(st, self.cmp(op, *vals))]
        if op == "*" and len(allv) == 1:
            return [(st, LV(self.deref_ref(st, self.deref(vals[0]))))]
        if op == "->": 
            v = vals[0]
            if v.op in ("it",): return [(st, T("addr", self.deref(v)))]
            return [(st, v)]
        if op in ("++", "--"):
            nv = self.advance(vals[0], 1 if op == "++" else -1)
            self.write(st, self.loc(allv[0]), nv)
            return [(st, vals[0] if len(allv) == 2 else allv[0])]
        if op in ("+=", "-=") and len(allv) == 2:
            if vals[0].op == "it" and vals[1].op == "int": nv = self.advance(vals[0], vals[1].a[0] * (1 if op == "+=" else -1))
            else: nv = self.arith(op[0], *vals)
            self.write(st, self.loc(allv[0]), nv)
            self.emit(st, "std", fn.qn, fn, vals, (self.loc(allv[0]),), line, fr)
            return [(st, allv[0])]
        if op in ("+", "-") and len(allv) == 2:
            if vals[0].op == "it" and vals[1].op == "int": return [(st, self.advance(vals[0], vals[1].a[0] if op == "+" else -vals[1].a[0]))]
            return [(st, self.arith(op, *vals))]
        if op == "[]":
            l = self.loc(allv[0])
            if fn.klass is not None and fn.klass.qn == "std::unique_ptr":
                return [(st, LV(self.deref(vals[0]) if vals[1] is INT(0) else T("ld", T("padd", vals[0], vals[1]))))]
            self.emit(st, "index", fn.qn, fn, vals, (l,), line, fr)
            return [(st, LV(T("le", l, vals[1])))]
        if op == "=" and vals[0].op == "tie":
            v = vals[1]
            for i, l in enumerate(vals[0].a):
                x = v.a[i] if v.op in ("pair", "tuple") and i < len(v.a) else T("fld", v, ("first", "second")[i]) if i < 2 and len(vals[0].a) == 2 else T("get", str(i), v)
                self.assign(st, l, x, {"l": line}, fr)
            return [(st, allv[0])]
        if op == "=":
            if isinstance(allv[1], LV) and fn.ck == "moveassign": self.moved(st, allv[1].loc, vals[1], None)
            self.assign(st, self.loc(allv[0]), vals[1], {"l": line}, fr)
            return [(st, allv[0])]
        if op == "()":
            k = fn.klass
            if k is not None and k.qn in ("std::less", "boost::move_detail::less"): return [(st, T("lt", vals[1], vals[2]))]
            if k is not None and k.qn == "std::equal_to": return [(st, T("eq", vals[1], vals[2]))]
            if k is not None and k.qn == "std::hash": return [(st, T("hash", k.ta, vals[1]))]
            if vals[0].op in ("closure", "fn"): return self.call_value(vals[0], vs, st, fr, line)
            t = T("callv", *vals)
            self.emit(st, "callv", fn.qn, fn, vals, (self.loc(allv[0]),), line, fr, res=t)
            return [(st, t)]
        if op == "<<" and "stream" in fn.rt:
            self.emit(st, "out", fn.qn, fn, vals, (), line, fr)
            return [(st, allv[0])]
        if op == "!": return [(st, T("not", vals[0]))]
        if op in ("&", "|", "^", "~", "<<", ">>", "&=", "|=", "^="):
            t = T("bit", op.rstrip("="), *vals)
            if op.endswith("="):
                self.write(st, self.loc(allv[0]), t); return [(st, allv[0])]
            return [(st, t)]
        t = T("call", fn.qn, *vals)
        self.emit(st, "std", fn.qn, fn, vals, [self.loc(x) for x in allv if isinstance(x, LV)], line, fr, res=t)
        return [(st, t)]

    # container methods
    def cmeth(self, fn): return fn.klass is not None
    def m_begin(self, fn, obj, vs, st, fr, line): return [(st, T("it", self.rv(st, obj), "b"))]
    m_cbegin = m_begin
    def m_end(self, fn, obj, vs, st, fr, line): return [(st, T("it", self.rv(st, obj), "e"))]
    m_cend = m_end
    def m_rbegin(self, fn, obj, vs, st, fr, line): return [(st, T("it", T("rev", self.rv(st, obj)), "b"))]
    m_crbegin = m_rbegin
    def m_rend(self, fn, obj, vs, st, fr, line): return [(st, T("it", T("rev", self.rv(st, obj)), "e"))]
    m_crend = m_rend
    def m_size(self, fn, obj, vs, st, fr, line):
        c = self.rv(st, obj)
        while c.op == 'upd' and all(isinstance(k, T) and k.op == 'pos' for k, _ in c.a[1]): c = c.a[0]   # changing elements in place keeps their number
        return [(st, INT(len(c.a)) if c.op == "coll" and not any(self.generic(x) for x in c.a) and "set" not in fn.qn and "map" not in fn.qn else T("size", c))]
    m_length = m_size
    def m_empty(self, fn, obj, vs, st, fr, line): return [(st, T("empty", self.rv(st, obj)))]
    def m_front(self, fn, obj, vs, st, fr, line): return [(st, LV(T("le", self.loc(obj), "front")))]
    def m_back(self, fn, obj, vs, st, fr, line): return [(st, LV(T("le", self.loc(obj), "back")))]
    def m_at(self, fn, obj, vs, st, fr, line): return [(st, LV(T("le", self.loc(obj), self.rv(st, vs[0]))))]
    def m_reserve(self, fn, obj, vs, st, fr, line): return [(st, VOID)]
    m_shrink_to_fit = m_rehash = m_reserve
    def m_clear(self, fn, obj, vs, st, fr, line):
        self.emit(st, "clear", fn.qn, fn, (self.rv(st, obj),), (self.loc(obj),), line, fr)
        self.write(st, self.loc(obj), EMPTYC); return [(st, VOID)]
    def cadd(self, st, obj, item, fn, line, fr, where="back", args=()):
        l = self.loc(obj)
        c = self.read(st, l)
        self.emit(st, "add", fn.qn, fn, (item,) + tuple(args), (l,), line, fr, extra=c)
        if c.op == "coll" and not any(has(x, "pos") for x in c.a): n = T("coll", *(c.a + (item,)))
        else: n = T("ext", c, item)
        self.write(st, l, n)
        return n
    def consume(self, st, fn, vs):
        """reads arguments; those passed as rvalue references are left moved-from"""
        vals = [self.rv(st, v) for v in vs]
        for v, x, p in zip(vs, vals, fn.params or []):
            t = self.p.type(p["t"])
            if isinstance(v, LV) and t.endswith("&&") and v.loc.op != "tmp": self.moved(st, v.loc, x, None)
        return vals
    def m_push_back(self, fn, obj, vs, st, fr, line):
        self.cadd(st, obj, self.consume(st, fn, vs)[0], fn, line, fr); return [(st, VOID)]
    def m_push_front(self, fn, obj, vs, st, fr, line):
        self.cadd(st, obj, self.consume(st, fn, vs)[0], fn, line, fr); return [(st, VOID)]
    def m_push(self, fn, obj, vs, st, fr, line): return self.m_push_back(fn, obj, vs, st, fr, line)
    def mk(self, fn, vals):
        k = fn.klass.qn if fn.klass else ""
        if len(vals) == 2 and ("map" in k or True): return T("pair", *vals)
        if len(vals) == 1: return vals[0]
        return T("tuple", *vals)
    def m_emplace_back(self, fn, obj, vs, st, fr, line):
        vals = self.consume(st, fn, vs)
        self.cadd(st, obj, self.mk(fn, vals), fn, line, fr); return [(st, LV(T("le", self.loc(obj), "back")))]
    m_emplace_front = m_emplace_back
    def m_emplace(self, fn, obj, vs, st, fr, line):
        vals = self.consume(st, fn, vs)
        l = self.loc(obj); c0 = self.read(st, l)
        item = self.mk(fn, vals)
        key = item.a[0] if item.op == "pair" else item
        self.cadd(st, obj, item, fn, line, fr)
        return [(st, T("pair", T("it", c0, T("key", key)), T("not", T("contains", c0, key))))]
    def m_emplace_hint(self, fn, obj, vs, st, fr, line):
        vals = self.consume(st, fn, vs)
        item = self.mk(fn, vals[1:])
        key = item.a[0] if item.op == "pair" else item
        self.cadd(st, obj, item, fn, line, fr)
        return [(st, T("it", self.rv(st, obj), T("key", key)))]
    def m_insert(self, fn, obj, vs, st, fr, line):
        vals = self.consume(st, fn, vs)
        l = self.loc(obj); c0 = self.read(st, l)
        if len(vals) == 2 and vals[0].op == "it" and vals[1].op == "it" and vals[0].a[0] is vals[1].a[0]:
            src = vals[0].a[0]
            self.emit(st, "addall", fn.qn, fn, (src,) + tuple(vals), (l,), line, fr, extra=c0)
            self.write(st, l, src if c0 is EMPTYC and vals[0].a[1] == "b" and vals[1].a[1] == "e" else T("union", c0, src))
            return [(st, VOID)]
        if len(vals) == 2 and fn.ta and fn.params and len(fn.params) == 2 and fn.params[0]["t"] == fn.params[1]["t"]:
            src = T("seq", *vals)
            self.emit(st, "addall", fn.qn, fn, (src,) + tuple(vals), (l,), line, fr, extra=c0)
            self.write(st, l, src if c0 is EMPTYC else T("union", c0, src))
            return [(st, VOID)]
        if len(vals) == 3 and vals[1].op == "it":
            self.emit(st, "addall", fn.qn, fn, (vals[1].a[0],) + tuple(vals), (l,), line, fr, extra=c0)
            self.write(st, l, T("union", c0, vals[1].a[0]))
            return [(st, VOID)]
        item = vals[-1]
        self.cadd(st, obj, item, fn, line, fr, args=vals[:-1])
        key = item.a[0] if item.op == "pair" else item
        if len(vals) == 1: return [(st, T("pair", T("it", c0, T("key", key)), T("not", T("contains", c0, key))))]
        return [(st, T("it", self.rv(st, obj), T("key", key)))]
    def m_find(self, fn, obj, vs, st, fr, line): return [(st, T("it", self.rv(st, obj), T("key", self.rv(st, vs[0]))))]
    def m_lower_bound(self, fn, obj, vs, st, fr, line): return [(st, T("it", self.rv(st, obj), T("lb", self.rv(st, vs[0]))))]
    def m_upper_bound(self, fn, obj, vs, st, fr, line): return [(st, T("it", self.rv(st, obj), T("ub", self.rv(st, vs[0]))))]
    def m_count(self, fn, obj, vs, st, fr, line):
        if vs: return [(st, T("count", self.rv(st, obj), self.rv(st, vs[0])))]
    def m_swap(self, fn, obj, vs, st, fr, line): return self.swap(obj, vs[0], st, fr, line)
    def m_get(self, fn, obj, vs, st, fr, line):
        if not vs: return [(st, self.rv(st, obj))]
    def m_release(self, fn, obj, vs, st, fr, line):
        v = self.rv(st, obj)
        self.write(st, self.loc(obj), NULL); return [(st, v)]
    def m_reset(self, fn, obj, vs, st, fr, line):
        v = self.rv(st, vs[0]) if vs else NULL
        if v.op == "unk" or (fn.params and not vs): v = NULL
        old = self.rv(st, obj)
        self.emit(st, "reset", fn.qn, fn, (old, v), (self.loc(obj),), line, fr)
        self.write(st, self.loc(obj), v); return [(st, VOID)]
    def m_pop_back(self, fn, obj, vs, st, fr, line):
        c = self.rv(st, obj)
        self.emit(st, "remove", fn.qn, fn, (c,), (self.loc(obj),), line, fr)
        self.write(st, self.loc(obj), T("coll", *c.a[:-1]) if c.op == "coll" and c.a else (c.a[0] if c.op == "ext" else T("mut", fn.name, c))); return [(st, VOID)]
    def m_pop_front(self, fn, obj, vs, st, fr, line):
        c = self.rv(st, obj)
        self.emit(st, "remove", fn.qn, fn, (c,), (self.loc(obj),), line, fr)
        self.write(st, self.loc(obj), T("mut", "pop_front", c)); return [(st, VOID)]
    def m_erase(self, fn, obj, vs, st, fr, line):
        vals = [self.rv(st, v) for v in vs]
        c = self.rv(st, obj)
        self.emit(st, "remove", fn.qn, fn, (c,) + tuple(vals), (self.loc(obj),), line, fr)
        self.write(st, self.loc(obj), T("mut", "erase", c, *vals))
        return [(st, T("it", self.rv(st, obj), T("after", *vals)))]
    def m_key_comp(self, fn, obj, vs, st, fr, line): return [(st, T("keycomp"))]

    # free functions
    def f_move(self, fn, obj, vs, st, fr, line):
        if len(vs) == 1: return [(st, vs[0])]
    f_forward = f_ref = f_cref = f_as_const = f_move
    f_move_if_noexcept = f_move
    def f_addressof(self, fn, obj, vs, st, fr, line): return [(st, self.addr(self.loc(vs[0])))]
    def f_swap(self, fn, obj, vs, st, fr, line): return self.swap(vs[0], vs[1], st, fr, line)
    def f_exchange(self, fn, obj, vs, st, fr, line):
        v = self.rv(st, vs[0]); self.assign(st, self.loc(vs[0]), self.rv(st, vs[1]), {"l": line}, fr); return [(st, v)]
    def swap(self, a, b, st, fr, line):
        x, y = self.rv(st, a), self.rv(st, b)
        self.assign(st, self.loc(a), y, {"l": line}, fr); self.assign(st, self.loc(b), x, {"l": line}, fr)
        return [(st, VOID)]
    def f_begin(self, fn, obj, vs, st, fr, line): return self.range_call("begin", vs[0], st, fr, line)
    def f_end(self, fn, obj, vs, st, fr, line): return self.range_call("end", vs[0], st, fr, line)
    f_cbegin, f_cend = f_begin, f_end
    def range_call(self, w, V, st, fr, line): return [(st, T("it", self.rv(st, V), w[0]))]
    def f_make_pair(self, fn, obj, vs, st, fr, line): return [(st, T("pair", *self.consume(st, fn, vs)))]
    def f_make_tuple(self, fn, obj, vs, st, fr, line): return [(st, T("tuple", *self.consume(st, fn, vs)))]
    def f_tie(self, fn, obj, vs, st, fr, line): return [(st, T("tie", *[self.loc(v) for v in vs]))]
    def f_distance(self, fn, obj, vs, st, fr, line):
        a, b = self.rv(st, vs[0]), self.rv(st, vs[1])
        if a.op == "it" and b.op == "it" and a.a[0] is b.a[0] and a.a[1] == "b" and b.a[1] == "e": return [(st, T("size", a.a[0]))]
        return [(st, T("distance", a, b))]
    def f_next(self, fn, obj, vs, st, fr, line):
        n = self.rv(st, vs[1]) if len(vs) > 1 else INT(1)
        v = self.rv(st, vs[0])
        return [(st, self.advance(v, n.a[0]) if n.op == "int" else T("padd", v, n))]
    def f_prev(self, fn, obj, vs, st, fr, line):
        n = self.rv(st, vs[1]) if len(vs) > 1 else INT(1)
        v = self.rv(st, vs[0])
        return [(st, self.advance(v, -n.a[0]) if n.op == "int" else T("psub", v, n))]
    def f_max(self, fn, obj, vs, st, fr, line):
        if len(vs) == 2:
            a, b = sorted([self.rv(st, v) for v in vs], key=repr); return [(st, T("max", a, b))]
    def f_min(self, fn, obj, vs, st, fr, line):
        if len(vs) == 2:
            a, b = sorted([self.rv(st, v) for v in vs], key=repr); return [(st, T("min", a, b))]
    def f_make_unique(self, fn, obj, vs, st, fr, line):
        vals = [self.rv(st, v) for v in vs]
        t = T("mknew", fn.ta, *vals)
        self.emit(st, "new", fn.qn, fn, vals, (), line, fr, res=t)
        return [(st, t)]
    f_make_shared = f_make_unique
    def f_get(self, fn, obj, vs, st, fr, line):
        v = self.rv(st, vs[0])
        ta = (fn.ta or "").strip("<> ").split(",")[0]
        if v.op in ("tuple", "pair") and ta.isdigit() and int(ta) < len(v.a): return [(st, v.a[int(ta)])]
        return [(st, T("get", ta, v))]
    # algorithms
    def alg(self, st, fr, line, a, b, f, mk):
        """loop over [a,b) calling f(elem); mk(state, V, result V) -> [(state, kind, v)]"""
        a, b = self.rv(st, a), self.rv(st, b)
        start = "b"
        if a.op == "it" and b.op == "it" and a.a[0] is b.a[0] and b.a[1] == "e": c, start = a.a[0], a.a[1]
        elif b.op == "padd" and len(b.a) == 2 and b.a[0] is a: c = T("arr", a, b.a[1])
        else: c = T("seq", a, b)
        def body(x, EV):
            out = []
            for s2, V in self.call_value(f, [EV], x, fr, line):
                if self.isexc(V): out.append((s2, "throw", V.a[0])); continue
                out.extend(mk(s2, EV, V))
            return out
        return self.foreach(st, fr, {"l": line}, c, body, start=start)
    def finish(self, outs, dflt):
        r = []
        for s, k, v in outs:
            if k == "n": r.append((s, dflt))
            elif k == "res": r.append((s, v))
            elif k == "throw": r.append((s, T("exc", v)))
            else: r.append((s, VOID))
        return r
    def f_for_each(self, fn, obj, vs, st, fr, line):
        o = self.alg(st, fr, line, vs[0], vs[1], self.rv(st, vs[2]), lambda s, E, V: [(s, "n", None)])
        return None if o is None else self.finish(o, VOID)
    def quant(self, fn, obj, vs, st, fr, line, stop, onstop, dflt):
        def mk(s, E, V):
            r = []
            for s2, t in self.fork(s, self.rv(s, V)):
                r.append((s2, "res", onstop) if t == stop else (s2, "n", None))
            return r
        o = self.alg(st, fr, line, vs[0], vs[1], self.rv(st, vs[2]), mk)
        return None if o is None else self.finish(o, dflt)
    def f_all_of(self, *a): return self.quant(*a, stop=False, onstop=FALSE, dflt=TRUE)
    def f_any_of(self, *a): return self.quant(*a, stop=True, onstop=TRUE, dflt=FALSE)
    def f_none_of(self, *a): return self.quant(*a, stop=True, onstop=FALSE, dflt=TRUE)

CONTAINERS = {"std::vector", "std::list", "std::deque", "std::set", "std::map", "std::unordered_map", "std::unordered_set", "std::multimap",
              "boost::container::flat_set", "boost::container::flat_map", "std::basic_string", "std::stack", "std::initializer_list", "std::unordered_multimap",
              "std::__cxx11::list", "std::__cxx11::basic_string"}
ITERS = {"__gnu_cxx::__normal_iterator", "boost::container::vec_iterator", "std::_List_const_iterator", "std::_List_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator",
         "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator"}

def flat(eff, facts=None, loops=()):
    """every effect of a log, including those inside loop iterations: (effect, loop stack)"""
    for e in eff:
        if isinstance(e, LoopRec):
            for it in e.iters:
                if it.end in ("end", "brk", "exit"):
                    yield from flat(it.eff, None, loops + ((e, it),))
        else: yield e, loops

def ptrloop(L):
    """a loop that walks a pointer p from A while p != B (or p < B), one at a time: (p, A, B), else None"""
    for v, ph in L.phis.items():
        if not ph["back"] or not all(b.op in ("add", "padd") and len(b.a) == 2 and v in b.a and INT(1) in b.a for b, _ in ph["back"]): continue
        stops = None
        for it in L.iters:
            if it.end not in ("end", "cont"): continue
            s = set()
            for k, w in it.facts.items():
                if k.op == "eq" and v in k.a and not w: s.add([x for x in k.a if x is not v][0])
                if k.op == "lt" and k.a[0] is v and w: s.add(k.a[1])
                if k.op == "lt" and k.a[1] is v and w is False: pass
            stops = s if stops is None else stops & s
        if stops: return v, ph["init"], sorted(stops, key=show)[0]
    return None
