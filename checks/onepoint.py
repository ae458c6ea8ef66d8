"""One-point abstract interpretation of set-building code.

Every set the analysed code manipulates is abstracted by what it says about one arbitrary, fixed point: empty (E),
not empty but without the point (O), or containing the point (I). For a node the point is a pair (value, rest): the
code can only be right if, for an arbitrary point, the result contains it exactly when the definition says so, and
since the point is arbitrary this covers all inputs. Collections keep exactly the entries that concern the point and
a flag for the others, of which one at a time is brought into focus. Loops are run to a fixpoint over the finite set of
abstract states; nothing is executed. A state that met a construct without a transfer function is imprecise, and a
violation on an imprecise state is undecided, not an alarm."""
from engine import *
import engine, time

TH = T("ld", IN("this"))
UNK = T("unk?")
E_, O_, I_ = "E", "O", "I"
END, GAP = "end", "gap"
IMP = T("lg", "!imprecise")
TRACE = T("lg", "!trace")

def nm(t): return t.op == "#"
OT = T("o")
PTAG, QTAG, MTAG = T("o", "P"), T("o", "Q"), T("o", "M")
NOC = T("tmp", T("nothing"))
def SET(s, sort, tag): return T("set", s, sort, OT if s != "I" and tag.op == "#" else tag)
def isset(t): return t.op in ("set", "node")
def sym(t): return t.a[0]
def tagof(t): return t.a[-1]
def sort(t): return t.a[1] if t.op == "set" else "n"

from program import walk

def unmove(t): return t.a[0] if t.op == "moved" else t
INFO = {}
def info(t):
    """(ordered names, locations 'lv', closures, has a bag, entry references) of a term, cached: terms are interned"""
    r = INFO.get(t)
    if r is not None: return r
    names, lvs, clos, bag, refs = [], [], [], False, []
    if t.op == "#": names.append(t)
    if t.op == "lv": lvs.append(t)
    if t.op == "closure": clos.append(t)
    if t.op == "bag": bag = True
    if t.op == "le" and isinstance(t.a[1], T) and t.a[1].op == "#": refs.append(t.a[1])
    if t.op == "ait":
        if isinstance(t.a[1], T) and t.a[1].op == "#": refs.append(t.a[1])
        refs.extend(t.a[2])
    def go(x):
        nonlocal bag
        if isinstance(x, T):
            i = info(x)
            names.extend(i[0]); lvs.extend(i[1]); clos.extend(i[2]); bag = bag or i[3]; refs.extend(i[4])
        elif isinstance(x, tuple):
            for y in x: go(y)
    for x in t.a: go(x)
    d = lambda l: tuple(dict.fromkeys(l))
    r = INFO[t] = (d(names), d(lvs), d(clos), bag, d(refs))
    return r

def ren(t, m, memo):
    """renames names in a term"""
    i = info(t)[0]
    if not i: return t
    for x in i:
        if x in m and m[x] is not x: break
    else: return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == "#": return m.get(t, t)
    def go(x):
        if isinstance(x, T): return ren(x, m, memo)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    r = memo[t] = T(t.op, *[go(x) for x in t.a])
    return r

class PInterp(Interp):
    MAXPATHS = 400000
    MAXSTATES = 6000
    MAXDEPTH = 24
    deadline = None
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.active = []
        self.pins = []
        self.em, self.lk, self.blurs, self.rens = {}, {}, {}, {}
        self.inloop, self.dead, self.seenloops = {}, {}, {}
        self.nstates = 0
        self.odd = {}
        self.why = set()
    # ---------------------------------------------------------------- fresh names
    def fresh(self, st):
        st.tick += 1
        return T("#", st.tick)
    def new(self, st, s, srt="?"): return SET(s, srt, self.fresh(st))
    def imprecise(self, st, why):
        self.why.add(why)
        st.store[IMP] = T("imp", why)
    def note(self, st, *what):
        if len(st.eff) < 60: st.eff.append(what)
    def emit(self, st, kind, name, fn, args, locs, line, fr, res=None, extra=None):
        if kind in ("std", "call", "callv", "addall"): self.imprecise(st, "%s %s" % (kind, name))
        return None
    # ---------------------------------------------------------------- store: bag entries live in their bag
    def entry(self, loc):
        """(container location, eid, path of fields below) if loc lies in a bag entry"""
        path, x = [], loc
        while x.op in ("lf", "le"):
            if x.op == "le" and isinstance(x.a[1], T) and x.a[1].op == "#": return x.a[0], x.a[1], path
            path.insert(0, x.a[1]); x = x.a[0]
        return None
    def elem_val(self, c, i):
        if isinstance(i, T) and i.op == "#" and c.op == "bag":
            for e, item in c.a[1]:
                if e is i: return item
            return T("gone", i)
        if i == "back" and c.op == "bag": return c.a[1][-1][1] if c.a[1] else T("gone")
        return super().elem_val(c, i)
    def setpath(self, v, path, x):
        if not path: return x
        f = path[0]
        y = self.setpath(self.field(v, f) if isinstance(f, str) else self.elem_val(v, f), path[1:], x)
        if v.op == "pair": return T("pair", y, v.a[1]) if f == "first" else T("pair", v.a[0], y)
        if v.op == "obj":
            d = dict(v.a[1]); d[f] = y
            return T("obj", v.a[0], tuple(sorted(d.items(), key=lambda z: str(z[0]))))
        if v.op == "bag" and isinstance(f, T): return T("bag", v.a[0], tuple((e, y if e is f else it) for e, it in v.a[1]), v.a[2])
        if v.op == "upd":
            d = dict(v.a[1]); d[f] = y
            return T("upd", v.a[0], tuple(sorted(d.items(), key=lambda z: str(z[0]))))
        return T("upd", v, ((f, y),))
    def write(self, st, loc, v):
        en = self.entry(loc)
        if en is None: return super().write(st, loc, v)
        cl, eid, path = en
        c = self.read(st, cl)
        if c.op != "bag": self.imprecise(st, "write into " + show(c)); return
        n = tuple((e, self.setpath(it, path, v) if e is eid else it) for e, it in c.a[1])
        self.write(st, cl, T("bag", c.a[0], n, c.a[2]))
    # ---------------------------------------------------------------- conditions
    def cmp(self, op, x, y):
        if op == "!=": 
            r = self.cmp("==", x, y)
            return FALSE if r is TRUE else TRUE if r is FALSE else T("not", r)
        if op == ">": return self.cmp("<", y, x)
        if op == "<=":
            r = self.cmp("<", y, x); return FALSE if r is TRUE else TRUE if r is FALSE else T("not", r)
        if op == ">=":
            r = self.cmp("<", x, y); return FALSE if r is TRUE else TRUE if r is FALSE else T("not", r)
        if x.op == "moved": x = x.a[0]
        if y.op == "moved": y = y.a[0]
        if op == "==":
            if x is y and x.op not in ("cnt", "num", "val") and not isset(x): return TRUE
            if isset(x) and isset(y):
                if sym(x) != sym(y): return FALSE
                if sym(x) == E_: return TRUE
                if sort(x) == sort(y) == "sn" and tagof(x) is not tagof(y): return FALSE    # of different arcs of a node
                if tagof(x).op == "o" or tagof(y).op == "o": return UNK
                if tagof(x) is tagof(y): return TRUE
                if x.op == "node" and y.op == "node" and x.a[1] != y.a[1]: return FALSE
                return T("eqs", x, y)
            if x.op == "gapkey" or y.op == "gapkey": return FALSE
            if x.op == "val" and y.op == "val":
                if x.a[0] != y.a[0]: return FALSE
                return TRUE if x.a[0] else UNK
            if x.op in ("ait", "opit") and y.op == x.op:
                cx, cy = x.a[1], y.a[1]
                if cx == END or cy == END:
                    if cx == GAP or cy == GAP: return FALSE
                    return TRUE if cx == cy else FALSE
                return TRUE if cx is cy else UNK
            if x.op == "int" and y.op == "int": return TRUE if x.a[0] == y.a[0] else FALSE
            if {x.op, y.op} <= {"int", "cnt", "num"}:
                if x.op == "int": x, y = y, x
                if x.op == "cnt" and y.op == "int":
                    lo, hi = x.a
                    if y.a[0] < lo or (hi is not None and y.a[0] > hi): return FALSE
                    if lo == hi == y.a[0]: return TRUE
                return UNK
            if x.op == "bool" and y.op == "bool": return TRUE if x is y else FALSE
            if x is NULL or y is NULL:
                o = y if x is NULL else x
                if o.op in ("addr", "new", "newarr") or isset(o): return FALSE
            return super().cmp(op, x, y)
        if op == "<":
            if y.op == "gapkey": return TRUE
            if x.op == "gapkey": return FALSE
            if isset(x) and isset(y): return FALSE if tagof(x) is tagof(y) and tagof(x).op != "o" else UNK
            if x is y and x.op not in ("cnt", "num", "val"): return FALSE
            if x.op == "val" and y.op == "val": return FALSE if x.a[0] and y.a[0] else UNK
            if x.op == "int" and y.op == "int": return TRUE if x.a[0] < y.a[0] else FALSE
            b = {"int": lambda t: (t.a[0], t.a[0]), "cnt": lambda t: t.a, "num": lambda t: (0, None)}
            if x.op in b and y.op in b:
                (a, c), (d, f) = b[x.op](x), b[y.op](y)
                if c is not None and c < d: return TRUE
                if f is not None and a >= f: return FALSE
                return UNK
        return super().cmp(op, x, y)
    def neq(self, st, a, b):
        k = T("neq", *sorted((a, b), key=repr))
        return k
    def fork(self, st, c):
        pol = True
        while c.op == "not": c = c.a[0]; pol = not pol
        if c.op == "moved": c = c.a[0]
        if c.op in ("eq", "ne", "lt", "gt", "le", "ge"):
            d = self.cmp({"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}[c.op], *c.a)
            if d is not c and d.op not in ("eq", "ne", "lt", "gt", "le", "ge"): return self.fork(st, d if pol else T("not", d))
        if c.op == "bool": return [(st, c.a[0] == pol)]
        if c.op == "int": return [(st, (c.a[0] != 0) == pol)]
        if c is NULL: return [(st, not pol)]
        if c.op in ("addr", "new", "fn", "closure"): return [(st, pol)]
        if c.op == "cnt": return self.fork(st, (lambda r: r if not pol else T("not", r))(self.cmp("==", c, INT(0))))
        self.paths += 1
        if self.paths > self.MAXPATHS: raise TooComplex("too many abstract paths")
        if c.op == "eqs":
            a, b = c.a
            r = []
            k = self.neq(st, tagof(a), tagof(b))
            if k in st.facts: return [(st, not pol)]
            s2 = st.copy()
            self.unify(s2, tagof(b), tagof(a))
            r.append((s2, pol))
            st.facts[k] = True
            r.append((st, not pol))
            return r
        if c is not UNK and c.op not in ("num",):
            if c in st.facts: return [(st, st.facts[c] == pol)]
            if c.op in ("in", "fld", "eq", "lt"):   # an input the domain does not track: either, consistently
                s2 = st.copy()
                st.facts[c] = True; s2.facts[c] = False
                self.why.add("free condition " + show(c))
                return [(st, pol), (s2, not pol)]
            self.imprecise(st, "condition " + show(c)[:200])
        s2 = st.copy()
        return [(st, True), (s2, False)]
    def unify(self, st, old, new):
        if old is new: return
        m = {old: new}
        memo = {}
        for l, v in st.store.items():
            if old in info(v)[0]: st.store[l] = ren(v, m, memo)
        st.facts = {(self.neq(st, *[ren(x, m, memo) for x in k.a]) if k.op == "neq" else ren(k, m, memo)): v for k, v in st.facts.items()}
    # ---------------------------------------------------------------- frames
    def call_body(self, fn, this, vals, st, caller, line):
        self.active.append(self.nfr + 1)
        self.pins.append([x for x in [this] + [v.loc for v in vals if isinstance(v, LV)] if x is not None])
        fid = self.active[-1]
        try: outs = super().call_body(fn, this, vals, st, caller, line)
        finally:
            self.active.pop(); self.pins.pop()
            for k in [k for k in self.seenloops if k[0] == fid or k[1] == fid]: del self.seenloops[k]
        return self.merge_outs(outs)
    def call_closure(self, fn, f, vs, st, fr, line):
        self.active.append(self.nfr + 1)
        self.pins.append([v.loc for v in vs if isinstance(v, LV)])
        try: return super().call_closure(fn, f, vs, st, fr, line)
        finally: self.active.pop(); self.pins.pop()
    def merge_outs(self, outs):
        if len(outs) < 10: return outs
        seen, r = set(), []
        for o in outs:
            v = o.val
            k = (o.kind, v.loc if isinstance(v, LV) else v)
            kk = self.key(o.st, extra=k)
            if kk in seen: continue
            seen.add(kk); r.append(o)
        return r
    def block(self, ss, st, fr):
        cur, out = [st], []
        i = 0
        labels = {x["n"]: j for j, x in enumerate(ss) if x and x["k"] == "label"}
        pend = {}
        while i < len(ss):
            nxt = []
            cur = self.dedup(cur + pend.pop(i, []))
            for s in cur:
                for s2, k, v in self.stmt(ss[i], s, fr):
                    if k == "n": nxt.append(s2)
                    elif k == "goto" and v in labels and labels[v] > i: pend.setdefault(labels[v], []).append(s2)
                    else: out.append((s2, k, v))
            cur = nxt
            i += 1
            if not cur and not pend: break
        return out + [(s, "n", None) for s in cur]
    def dedup(self, sts):
        if len(sts) < 10: return sts
        seen, r = set(), []
        for s in sts:
            k = self.key(s)
            if k in seen: continue
            seen.add(k); r.append(s)
        return r
    # ---------------------------------------------------------------- canonical states
    def erase(self, t, memo):
        """t without names, for ordering"""
        if not isinstance(t, T): return t
        if t in memo: return memo[t]
        if t.op == "#": r = "#"
        else: r = (t.op,) + tuple(self.erase(x, memo) if isinstance(x, T) else tuple(self.erase(y, memo) if not isinstance(y, tuple) else tuple(self.erase(z, memo) for z in y) for y in x) if isinstance(x, tuple) else x for x in t.a)
        memo[t] = r
        return r
    def shape(self, t):
        """what kind of entry: used to bring an unrelated one into focus later"""
        if t.op == "moved": t = t.a[0]
        if isset(t): return "S" + sort(t)
        if t.op == "val": return "X"
        if t.op == "bag" or t.op == "coll":
            es = {self.shape(it) for it in (t.a if t.op == "coll" else [x for _, x in t.a[1]])}
            if t.op == "bag" and isinstance(t.a[2], str): es.add(t.a[2])
            return "{" + (sorted(es)[0] if len(es) == 1 else "" if not es else "?") + "}"
        if t.op in ("obj", "upd"):
            v = self.field(t, "set_")
            if v.op in ("bag", "coll"): return "B" + self.shape(v)
        if t.op == "pair": return "P" + self.shape(t.a[0]) + ">" + self.shape(t.a[1])
        return "?"
    def instances(self, st, sh, syms=(O_, I_)):
        """entries of that shape that do not concern the point"""
        if sh[0] == "S": return [SET(x, sh[1:], OT) for x in syms]
        if sh == "X": return [T("val", 1 if x == I_ else 0, OT) for x in syms]
        if sh[0] == "{":
            inner = sh[1:-1]
            if inner in ("", "?"): return []
            r = []
            for ss in [(x,) for x in syms] + ([tuple(syms)] if len(syms) > 1 else []):
                es = tuple((self.fresh(st), self.instances(st, inner, (x,))[0]) for x in ss)
                r.append(T("bag", "set", es, inner))
            return r
        if sh[0] == "B": return [T("obj", "sdd::dd::nary_builder", (("set_", b),)) for b in self.instances(st, sh[1:], syms)]
        if sh[0] == "P":
            k, m = sh[1:].split(">", 1)
            ks, ms = ((O_, I_), (O_,)) if k in ("Ss", "Ssn") else ((O_,), (O_, I_))
            return [T("pair", x, y) for x in self.instances(st, k, ks) for y in self.instances(st, m, ms)]
        return []
    def holds(self, t):
        if t.op == "moved": t = t.a[0]
        if isset(t): return sym(t) == I_
        if t.op == "val": return bool(t.a[0])
        if t.op == "coll": return any(self.holds(x) for x in t.a)
        if t.op == "bag": return any(self.holds(x) for _, x in t.a[1])
        if t.op in ("obj", "upd"): return self.holds(self.field(t, "set_"))
        return True
    def irrelevant(self, item):
        """a successor-keyed entry matters if its valuations hold the value, a value-keyed one if its key does"""
        if item.op == "val": return not item.a[0]
        if item.op == "pair":
            k = item.a[0]
            if k.op == "moved": k = k.a[0]
            if "?" in self.shape(item): return False
            if isset(k) and sort(k) in ("s", "sn") and any(isset(unmove(x)) and sym(unmove(x)) == E_ for x in item.a): return False      # an arc to be: must not get lost
            if isset(k): return not self.holds(item.a[1]) if sort(k) in ("s", "sn") else sym(k) == O_
            if k.op == "val": return not k.a[0]
        return False
    def live(self, st, drop=()):
        keep = {}
        act = set(self.active)
        for l, v in st.store.items():
            r = root(l)
            if r.op == "lv":
                if r.a[1] not in act: continue
                if r.a[0] in self.dead.get(r.a[1], ()): continue
                if r.a[0] in drop: continue
            keep[l] = v
        # what live references designate is live too
        byroot = None
        work = list(keep.values())
        seen = set()
        while work:
            v = work.pop()
            i = info(v)
            want = [x for x in i[1] if x not in seen]
            if not want and not i[2]: continue
            if byroot is None:
                byroot, byid = {}, {}
                for l in st.store:
                    r = root(l)
                    byroot.setdefault(r, []).append(l)
                    if r.op == "lv": byid.setdefault(r.a[1], []).append(l)
            for x in want:
                seen.add(x)
                for l in byroot.get(x, ()):
                    if l not in keep: keep[l] = st.store[l]; work.append(st.store[l])
            for c in i[2]:
                for l in byid.get(c.a[2], ()):
                    if l not in keep: keep[l] = st.store[l]; work.append(st.store[l])
        return keep
    def canon(self, st, drop=()):
        """garbage-collects and blurs: a new state without what does not matter any more"""
        keep = self.live(st, drop)
        # blur: entries that do not concern the point and that nothing designates
        refs = set(self.pinned())
        for v in keep.values(): refs.update(info(v)[4])
        cache = self.blurs
        def blur(t, nested=False):
            if not isinstance(t, T): return tuple(blur(x, nested) for x in t) if isinstance(t, tuple) else t
            i = info(t)
            if not i[3]: return t
            mk = (t, nested, frozenset(refs.intersection(i[0])))
            r = cache.get(mk)
            if r is not None: return r
            r = cache[mk] = blur2(t, nested)
            return r
        def blur2(t, nested):
            if t.op == "bag":
                kind, es, oth = t.a
                es = tuple((e, blur(it, True)) for e, it in es)
                if nested and kind == "set" and es and (all(isset(it) for _, it in es) or all(it.op == "val" for _, it in es)) and not any(e in refs for e, _ in es):
                    # operands of a union, kept in a collection: only whether one of them has the point matters
                    sh = self.shape(es[0][1])
                    es = ([x for x in es if self.holds(x[1])] or es)[:1]
                    return T("bag", kind, tuple(es), sh if oth in (False, sh) else oth)
                out, cnt = [], {}
                em = self.em
                for e, it in es:
                    if e not in refs and self.irrelevant(it):
                        sh = self.shape(it)
                        if oth in (False, sh): oth = sh; continue
                    if e not in refs:
                        k = repr(self.erase(it, em))
                        if it.op == "pair" and isset(unmove(it.a[0])) and sort(unmove(it.a[0])) == "v":
                            # several valuations that hold the value: what they lead to decides
                            k = "v-key", self.holds(it.a[1])
                            if cnt.get(k): continue
                        elif it.op == "pair" and isset(unmove(it.a[0])) and sort(unmove(it.a[0])) in ("s", "sn") and "?" not in self.shape(it):
                            k = "s-key", sym(unmove(it.a[0]))
                            if cnt.get(k): continue
                        cnt[k] = cnt.get(k, 0) + 1
                        if isset(it) and sym(it) == O_ and cnt[k] > 1 and oth in (False, self.shape(it)): oth = self.shape(it); continue
                        if cnt[k] > 2: continue
                    out.append((e, it))
                if kind not in ("seq", "seqx"): out.sort(key=lambda x: repr(self.erase(x[1], em)))
                if kind == "map" and oth is False and out:
                    sh = self.shape(out[0][1])
                    if "?" not in sh: oth = sh          # there may be others
                if kind == "seq" and es and (not out or out[-1][0] is not es[-1][0]): kind = "seqx"     # what back() designates is lost
                r = T("bag", kind, tuple(out), oth)
            elif not any(isinstance(x, (T, tuple)) for x in t.a): r = t
            else: r = T(t.op, *[blur(x, nested) if isinstance(x, (T, tuple)) else x for x in t.a])
            return r
        s = St()
        s.store = {l: blur(v) for l, v in keep.items()}
        s.eff, s.tick = st.eff, st.tick
        s.kids = {}
        for l in s.store:
            x = l
            while x.op in ("lf", "le"): s.kids.setdefault(x.a[0], set()).add(x); x = x.a[0]
        alive = {x for v in s.store.values() for x in info(v)[0]}
        s.facts = {k: v for k, v in st.facts.items() if k.op not in ("neq", "absent") or all(y in alive for y in info(k)[0])}
        if any(k.op == "absent" for k in s.facts):
            ky = self.keyed(s.store)
            s.facts = {k: v for k, v in s.facts.items() if k.op != "absent" or (ky.get(k.a[1], set()) - {k.a[0]} and (root(k.a[0]).op != "lv" or root(k.a[0]).a[1] in self.active) and self.read(s, k.a[0]).op == "bag")}
        return s
    def pinned(self):
        return {x for ls in self.pins for l in ls for x in info(l)[0]}
    def names(self, s):
        """s (already canonical) up to renaming"""
        m = {}
        def num(t):
            for x in info(t)[0]:
                if x not in m: m[x] = T("#", len(m) + 1)
        for ls in self.pins:
            for l in ls: num(l)
        order = sorted(s.store, key=self.lkey)
        for l in order: num(s.store[l])
        sm = {}
        fs = []
        for k, v in s.facts.items():
            k = ren(k, m, sm)
            if k.op == "neq": k = self.neq(s, *k.a)
            fs.append((k, v))
        rc = self.rens
        out = []
        for l in order:
            v = s.store[l]
            ns = info(v)[0]
            if ns:
                k = (v, tuple([m[x] for x in ns]))
                r = rc.get(k)
                if r is None: r = rc[k] = ren(v, m, sm)
                v = r
            out.append((l, v))
        return frozenset(out), frozenset(fs)
    def lkey(self, l):
        k = self.lk.get(l)
        if k is None: k = self.lk[l] = repr(l)
        return k
    def key(self, st, extra=None, drop=()):
        X = T("lg", "!extra")
        if extra is not None:
            st.store[X] = extra[1] if isinstance(extra[1], T) else VOID
            c = self.canon(st, drop)
            st.store.pop(X, None)
            return (extra[0], self.names(c))
        return self.names(self.canon(st, drop))
    # ---------------------------------------------------------------- loops: fixpoint over abstract states
    def declared(self, s):
        if not isinstance(s, dict): return ()
        c = self.odd.get(id(s))
        if c is None:
            ds = set()
            for part in ("b", "c", "inc"):
                for x in walk(s.get(part) or {}):
                    if x.get("k") == "decl": ds.update(d["v"] for d in x["d"])
            if isinstance(s.get("v"), dict): ds.add(s["v"].get("v"))
            c = self.odd[id(s)] = ds
        return c
    def lastuse(self, fn):
        """({variable: last line that uses it}, {variable: the loop it is declared in})"""
        u = self.odd.get(fn)
        if u is None:
            last, home = {}, {}
            def go(x, loop):
                nonlocal last
                if isinstance(x, list):
                    for y in x: go(y, loop)
                    return
                if not isinstance(x, dict): return
                k = x.get("k")
                if k == "lambda": raise StopIteration
                if k == "var": last[x["v"]] = max(last.get(x["v"], 0), x.get("l", 10 ** 9))
                if k == "decl":
                    for d in x["d"]: home[d["v"]] = loop
                inner = id(x) if k in ("for", "while", "do", "rfor", "foreach", "forrange") or ("b" in x and ("c" in x or "v" in x)) else loop
                if isinstance(x.get("v"), dict): home[x["v"].get("v")] = inner
                for f, y in x.items():
                    # the initialisation of a loop happens once
                    go(y, loop if f in ("i", "init", "r") else inner)
            try: go(fn.body or {}, None); u = (last, home)
            except StopIteration: u = None
            self.odd[fn] = u
        return u
    def loop(self, st, fr, s, condf, bodyf, incf, post=False, src=None, start=None, stop=None):
        drop = set(self.declared(s))
        line = s.get("l") if isinstance(s, dict) else s
        outer = self.inloop.setdefault(fr.id, [])
        outer.append((line, id(s)))
        old = self.dead.get(fr.id)
        u = self.lastuse(fr.fn)
        if u and all(isinstance(l, int) for l, _ in outer):
            after = {None: outer[0][0]}
            for i, (l, k) in enumerate(outer[:-1]): after[k] = outer[i + 1][0]
            last, home = u
            self.dead[fr.id] = {v for v, l in last.items() if home.get(v) in after and l < after[home.get(v)]}
        try: return self.loop2(st, fr, s, drop, condf, bodyf, incf, post)
        finally:
            outer.pop()
            if old is None: self.dead.pop(fr.id, None)
            else: self.dead[fr.id] = old
    def loop2(self, st, fr, s, drop, condf, bodyf, incf, post):
        # a state met before in this loop (of this activation) has already been followed to all its continuations
        key = (fr.id, id(s)) if isinstance(s, dict) and "k" in s else None
        seen = self.seenloops.setdefault(key, set()) if key else set()
        seen2 = self.seenloops.setdefault(("x",) + key, set()) if key else set()
        out, exits = [], []
        work = [st]
        n = 0
        while work:
            x = self.canon(work.pop(), drop)
            k = self.names(x)
            if k in seen: continue
            seen.add(k)
            n += 1
            self.nstates += 1
            if self.deadline and time.time() > self.deadline: raise TooComplex("no result in time")
            if n > self.MAXSTATES: raise TooComplex("loop at %s:%s has too many abstract states" % (fr.fn.rel, s.get("l") if isinstance(s, dict) else s))
            def after(y):
                if incf is None: work.append(y); return
                for z, V in incf(y):
                    if self.isexc(V): out.append((z, "throw", V.a[0]))
                    else: work.append(z)
            if post:
                for y, kk, v in bodyf(x):
                    if kk in ("n", "cont"):
                        for z, t in condf(y):
                            if isinstance(t, T): out.append((z, "throw", t.a[0]))
                            elif t: after(z)
                            else: exits.append(z)
                    elif kk == "brk": exits.append(y)
                    else: out.append((y, kk, v))
            else:
                for y, t in condf(x):
                    if isinstance(t, T): out.append((y, "throw", t.a[0])); continue
                    if not t: exits.append(y); continue
                    for z, kk, v in bodyf(y):
                        if kk in ("n", "cont"): after(z)
                        elif kk == "brk": exits.append(z)
                        else: out.append((z, kk, v))
        ex2 = []
        for y in exits:
            y = self.canon(y, drop)
            k = self.names(y)
            if k in seen2: continue
            seen2.add(k); ex2.append((y, "n", None))
        return out + ex2
    def foreach(self, st, fr, s, V, bodyf, start="b", stop="e"):
        c, cl = self.range_of(st, V)
        if c.op == "moved": c = c.a[0]
        lits = self.literal_items(c) if start == "b" else None
        if lits is not None: return super().foreach(st, fr, s, V, bodyf, start, stop)
        C = self.container(st, V)
        if C is None:
            self.imprecise(st, "iteration over " + show(c)[:120])
            return [(st, "n", None)]
        out = []
        il = T("lv", "it%s" % id(s), fr.id)
        starts = []
        for s2, it in self.first(st, C):
            s2.store[il] = it
            starts.append(s2)
        def condf(x):
            return [(x, x.store[il].a[1] != END)]
        def body(x): return bodyf(x, LV(self.itloc(x, x.store[il])))
        def inc(x):
            r = []
            for s2, it in self.next(x, x.store[il]):
                s2.store[il] = it; r.append((s2, VOID))
            return r
        for s2 in starts: out.extend(self.loop(s2, fr, s, condf, body, inc))
        for s2, k, v in out: s2.store.pop(il, None)
        return out
    # ---------------------------------------------------------------- containers and iterators
    def container(self, st, V):
        """location of an iterable: a bag in place, or a temporary one for what is read-only"""
        c = self.rv(st, V)
        if c.op == "moved": c = c.a[0]
        if c.op == "bag":
            return V.loc if isinstance(V, LV) else T("tmp", c)
        if c.op == "coll":
            b = self.tobag(st, c, "seq")
            if isinstance(V, LV) and V.loc.op != "tmp": self.write(st, V.loc, b); return V.loc
            return T("tmp", b)
        d = self.view(st, c)
        return T("tmp", d) if d is not None else None
    def view(self, st, c):
        """read-only collections: the arcs of a node, the values of a valuation"""
        if c.op == "node":
            s_, shape = c.a[0], c.a[1]
            if s_ == E_: return T("bag", "seq", (), False)
            es = ()
            if shape in "ao": es = ((T("#", -1), self.arc(c.a[2], c.a[3])),)
            return T("bag", "arcs" if shape != "o" else "arcs?", es, True)       # 'o': the arc may be missing
        if c.op == "set":
            if c.a[0] == E_: return T("bag", "seq", (), False)
            return T("bag", "vals", ((T("#", -1), T("val", 1, OT)),) if c.a[0] == I_ else (), True)
        return None
    def arc(self, v, s): return T("obj", "sdd::arc", (("successor_", s), ("valuation_", v)))
    def tobag(self, st, c, kind="seq"):
        if c.op == "bag": return c
        if c.op == "coll": return T("bag", kind, tuple((self.fresh(st), x) for x in c.a), False)
        return None
    def bag(self, st, obj, kind):
        """the bag at obj, or None"""
        c = self.rv(st, obj)
        if c.op == "moved": c = T("bag", kind, (), False)
        x = c
        while x.op == "fld": x = x.a[0]
        if x.op == "gapval": return None      # an entry with another key: what is put there is not where it should be
        b = self.tobag(st, c, kind)
        if b is None: self.imprecise(st, "container " + show(c)[:120]); return None
        if b.a[0] != kind and kind != "seq" and b.a[0] in ("seq", "seqx"): b = T("bag", kind, b.a[1], b.a[2])
        return b
    def kind(self, fn):
        q = fn.klass.qn if fn.klass is not None else ""
        if any(x in q for x in ("vector", "list", "deque", "array")): return "seq"
        return "map" if "map" in q else "set" if "set" in q or "tree" in q else "seq"
    def phantoms(self, st, b):
        """what an entry that does not concern the point may look like"""
        k = b.a[0]
        if k in ("arcs", "arcs?"):
            if self.marked: return [self.arc(T("set", O_, "v", PTAG if x == I_ else QTAG), SET(x, "sn", self.fresh(st))) for x in (O_, I_)]
            return [self.arc(self.new(st, O_, "v"), SET(x, "s", OT)) for x in (O_, I_)]
        if k == "vals": return [T("val", 0, OT)]
        return self.other_items(st, b)
    marked = False      # valuations of unrelated arcs tell whether their successor holds the rest of the point
    def another_pass(self, st):
        """the successors of the arcs are met again: no longer different from those met before"""
        memo = {}
        def go(x):
            if isinstance(x, str): return x.replace("Ssn", "Ss") if x != "sn" else "s"
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            if not isinstance(x, T) or x.op in ("lv", "lg"): return x
            r = memo.get(x)
            if r is None: r = memo[x] = T(x.op, *[go(y) for y in x.a])
            return r
        for l, v in list(st.store.items()):
            if "sn" in self.erased(v) : st.store[l] = go(v)
    def erased(self, v):
        r = self.odd.get(v)
        if r is None: r = self.odd[v] = repr(v)
        return r
    def other_items(self, st, b):
        if not isinstance(b.a[2], str): return []
        return self.instances(st, b.a[2], (O_,)) if b.a[2][0] in "SX" else self.instances(st, b.a[2])
    def itloc(self, st, it):
        cl, cur = it.a[0], it.a[1]
        if isinstance(cur, T) and cur.op == "#": return T("le", cl, cur)
        if isinstance(cur, T) and cur.op == "ph": return T("tmp", cur.a[0])
        if cur == GAP: return T("tmp", T("pair", T("gapkey"), T("gapval")))
        return T("tmp", T("deref-end"))
    def step(self, st, cl, rem, b):
        """the next element: one of the remaining ones, an unrelated one, or the end"""
        r = []
        ids = [e for e, _ in b.a[1]]
        rem = tuple(e for e in rem if e in ids)
        first = True
        groups = {}
        em = self.em
        for e, it in b.a[1]:
            if e in rem: groups.setdefault(repr(self.erase(it, em)), e)
        picks = list(groups.values()) if b.a[0] not in ("seq", "seqx") else list(rem[:1])
        for e in picks:
            s2 = st.copy()
            r.append((s2, T("ait", cl, e, tuple(x for x in rem if x is not e))))
        if b.a[2]:
            if b.a[0] in ("arcs", "arcs?", "vals", "set"):
                n = len(self.phantoms(st.copy(), b))
                for i in range(n):
                    s2 = st.copy()
                    r.append((s2, T("ait", cl, T("ph", self.phantoms(s2, b)[i]), rem)))
            else:
                for i in range(len(self.other_items(st.copy(), b))):
                    s2 = st.copy()
                    eid = self.focus(s2, cl, i)
                    r.append((s2, T("ait", cl, eid, rem)))
        if b.a[0] == "set" and not rem:
            # two equal-looking elements stand for two or more
            em, cnt = self.em, {}
            for e, it in b.a[1]:
                k = repr(self.erase(it, em)); cnt.setdefault(k, []).append(it)
            for k, its in cnt.items():
                if len(its) >= 2 and isset(its[0]):
                    s2 = st.copy()
                    r.append((s2, T("ait", cl, T("ph", self.retag(s2, its[0])), ())))
        if not rem or b.a[0] == "arcs?": r.append((st.copy(), T("ait", self.endof(cl), END, ())))
        return r
    def retag(self, st, t): return t if tagof(t).op == "o" else T(t.op, *(t.a[:-1] + (self.fresh(st),)))
    def focus(self, st, cl, i):
        b = self.read(st, cl)
        it = self.other_items(st, b)[i]
        eid = self.fresh(st)
        k = it.a[0] if it.op == "pair" else it
        if b.a[0] == "map" and it.op == "pair" and isset(k) and sym(k) == I_ and sort(k) in ("s", "sn"):
            # the keys of a map are pairwise different
            n = SET(I_, sort(k), self.fresh(st))
            for _, x in b.a[1]:
                y = x.a[0] if x.op == "pair" else x
                if y.op == "moved": y = y.a[0]
                if isset(y) and tagof(y).op != "o": st.facts[self.neq(st, tagof(y), tagof(n))] = True
            for f in list(st.facts):
                if f.op == "absent" and f.a[0] is cl: st.facts[self.neq(st, f.a[1], tagof(n))] = True
            it = T("pair", n, it.a[1])
        self.write(st, cl, T("bag", b.a[0], b.a[1] + ((eid, it),), b.a[2]))
        return eid
    def bagof(self, st, cl):
        b = self.read(st, cl)
        return b if b.op == "bag" else None
    def first(self, st, cl):
        b = self.bagof(st, cl)
        if self.marked and b.a[0] in ("arcs", "arcs?"): self.another_pass(st)
        return self.step(st, cl, tuple(e for e, _ in b.a[1]), b)
    def next(self, st, it):
        cl, cur, rem = it.a
        b = self.bagof(st, cl)
        if cur == END: self.imprecise(st, "past the end"); return [(st, it)]
        if b is None: self.imprecise(st, "container lost"); return [(st, it)]
        # the entry left behind is blurred at the next join if it does not concern the point
        return self.step(st, cl, rem, b)
    def advance(self, v, n):
        if v.op in ("ait", "opit"): raise NeedFork(v, n)
        if v.op in ("cnt", "num"): return T("num")
        return super().advance(v, n)
    def arith(self, op, x, y):
        if x.op in ("cnt", "num") or y.op in ("cnt", "num"):
            if op == "+" and x.op == "cnt" and y.op == "int": return T("cnt", x.a[0] + y.a[0], None if x.a[1] is None else x.a[1] + y.a[0])
            return T("num")
        return super().arith(op, x, y)
    def deref(self, p):
        if p.op == "ait": return self.itloc(None, p)
        if p.op == "opit": return T("tmp", p.a[1] if isinstance(p.a[1], T) else T("deref-end"))
        return super().deref(p)
    def e_un(self, e, st, fr):
        if e["op"] in ("++", "--"):
            r = []
            for s, V in self.ev(e["e"], st, fr):
                if self.isexc(V): r.append((s, V)); continue
                v = self.rv(s, V)
                if v.op in ("ait", "opit"):
                    if e["op"] == "--": self.imprecise(s, "--iterator"); r.append((s, V)); continue
                    for s2, n in (self.next(s, v) if v.op == "ait" else self.opnext(s, v)):
                        self.write(s2, self.loc(V), n)
                        r.append((s2, v if e.get("post") else V))
                else:
                    n = self.advance(v, 1 if e["op"] == "++" else -1)
                    self.write(s, self.loc(V), n)
                    r.append((s, v if e.get("post") else V))
            return r
        return super().e_un(e, st, fr)
    def std_op(self, fn, op, obj, vs, st, fr, line):
        allv = ([obj] if obj is not None else []) + list(vs)
        if op in ("++", "--") and allv:
            v = self.rv(st, allv[0])
            if v.op in ("ait", "opit"):
                if op == "--": self.imprecise(st, "--iterator"); return [(st, allv[0])]
                r = []
                for s2, n in (self.next(st, v) if v.op == "ait" else self.opnext(st, v)):
                    self.write(s2, self.loc(allv[0]), n)
                    r.append((s2, v if len(allv) == 2 else allv[0]))
                return r
        if op == "->" and allv:
            v = self.rv(st, allv[0])
            if v.op in ("ait", "opit"): return [(st, T("addr", self.deref(v)))]
        if op == "()" and fn.klass is not None and fn.klass.qn in ("std::less", "boost::move_detail::less"):
            vals = [self.rv(st, v) for v in allv]
            return [(st, self.cmp("<", vals[1], vals[2]))]
        if op == "()" and allv and self.rv(st, allv[0]).op == "keycomp":
            vals = [self.rv(st, v) for v in allv]
            a, b = [x.a[0] if x.op == "pair" else x for x in vals[1:3]]
            return [(st, self.cmp("<", a, b))]
        if op == "[]" and len(allv) == 2 and self.kind(fn) == "map": return self.subscript(fn, obj, vs, st, fr, line)
        return super().std_op(fn, op, obj, vs, st, fr, line)
    def subscript(self, fn, obj, vs, st, fr, line):
        key = self.rv(st, vs[0])
        r = []
        for s2, it in self.lookup(st, obj, key, "map"):
            if it.a[1] == END:
                for s3, eid in self.put(s2, obj, T("pair", key, EMPTYC), "map", known_new=True): r.append((s3, LV(T("le", self.loc(obj), eid)) if False else LV(T("lf", T("le", self.loc(obj), eid), "second"))))
            else: r.append((s2, LV(T("lf", self.itloc(s2, it), "second"))))
        return r
    # lookup / insertion
    def keyof(self, item): return item.a[0] if item.op == "pair" else item
    def lookup(self, st, obj, key, kind):
        """[(state, iterator)]: found at an entry, or END"""
        cl = self.loc(obj)
        b = self.bag(st, obj, kind)
        if b is None: return [(st, T("ait", cl, END, ()))]
        if key.op == "moved": key = key.a[0]
        if self.rv(st, obj) is not b: self.write(st, cl, b)
        cands = []
        named = isset(key) and tagof(key).op != "o"
        gone = named and T("absent", cl, tagof(key)) in st.facts
        for e, it in b.a[1]:
            k = self.keyof(it)
            if k.op == "moved": k = k.a[0]
            d = self.cmp("==", k, key)
            if d is TRUE: return [(st, T("ait", cl, e, ()))]
            if d is FALSE or gone: continue
            if d.op == "eqs" and self.neq(st, tagof(k), tagof(key)) in st.facts: continue
            cands.append((e, k))
        r = []
        for e, k in cands:
            s2 = st.copy()
            if isset(k) and named:
                if tagof(k).op != "o": self.unify(s2, tagof(key), tagof(k))
                else: self.rekey(s2, cl, e, key)
            r.append((s2, T("ait", cl, e, ())))
        if b.a[2] and not gone:
            for i, x in enumerate(self.other_items(st.copy(), b)):
                x = self.keyof(x)
                if self.cmp("==", x, key) is FALSE: continue
                s2 = st.copy()
                eid = self.focus(s2, cl, i)
                if isset(key): self.rekey(s2, cl, eid, key)
                r.append((s2, T("ait", cl, eid, ())))
        s2 = st.copy()
        if named: s2.facts[T("absent", cl, tagof(key))] = True
        r.append((s2, T("ait", cl, END, ())))
        return r
    def rekey(self, st, cl, eid, key):
        b = self.read(st, cl)
        def f(it): return T("pair", key, it.a[1]) if it.op == "pair" else key
        self.write(st, cl, T("bag", b.a[0], tuple((e, f(it) if e is eid else it) for e, it in b.a[1]), b.a[2]))
    def put(self, st, obj, item, kind, known_new=False):
        """adds an item: [(state, eid)] (eid of the entry that holds the key)"""
        cl = self.loc(obj)
        if kind == "seq":
            b = self.bag(st, obj, kind)
            if b is None: return [(st, self.fresh(st))]
            eid = self.fresh(st)
            self.write(st, cl, T("bag", "seq" if b.a[0] == "seqx" else b.a[0], b.a[1] + ((eid, item),), b.a[2]))
            return [(st, eid)]
        r = []
        key = self.keyof(item)
        for s2, it in ([(st, T("ait", cl, END, ()))] if known_new else self.lookup(st, obj, key, kind)):
            if it.a[1] != END: r.append((s2, it.a[1])); continue
            b = self.bag(s2, obj, kind)
            if b is None: r.append((s2, self.fresh(s2))); continue
            eid = self.fresh(s2)
            self.still_absent(s2, cl, b, key)
            self.write(s2, cl, T("bag", kind, b.a[1] + ((eid, item),), b.a[2]))
            r.append((s2, eid))
        return r
    def still_absent(self, st, cl, b, key):
        """key is about to enter the collection: which sets are still known not to be keys"""
        if key.op == "moved": key = key.a[0]
        if not isset(key): return
        if sym(key) == I_:
            k = tagof(key)
            ok = set() if k.op == "o" else {y for f in st.facts if f.op == "neq" and k in f.a for y in f.a if y is not k}
        else: ok = None     # another set than any that holds the point
        if not b.a[1] and not b.a[2]:
            ok = {t for t, ls in self.keyed(st.store).items() if ls - {cl} and (ok is None or t in ok)}
            for t in ok: st.facts[T("absent", cl, t)] = True
        elif ok is not None:
            for f in [f for f in st.facts if f.op == "absent" and f.a[0] is cl and f.a[1] not in ok]: del st.facts[f]
    def keyed(self, store):
        """{name: map location} of the sets that are keys of a map in the store"""
        r = {}
        def go(l, t):
            if t.op == "bag":
                if t.a[0] == "map":
                    for _, x in t.a[1]:
                        k = x.a[0] if x.op == "pair" else x
                        if k.op == "moved": k = k.a[0]
                        if isset(k) and tagof(k).op != "o" and sort(k) in ("s", "sn"): r.setdefault(tagof(k), set()).add(l)
            elif t.op in ("obj", "upd"):
                for f, x in t.a[1]:
                    if isinstance(x, T) and info(x)[3]: go(T("lf", l, f), x)
        for l, v in store.items():
            if info(v)[3]: go(l, v)
        return r
    def isbag(self, st, obj):
        c = self.rv(st, obj)
        if c.op == "moved": c = c.a[0]
        return c.op in ("bag", "coll")
    def m_begin(self, fn, obj, vs, st, fr, line):
        C = self.container(st, obj)
        if C is None: self.imprecise(st, "begin of " + show(self.rv(st, obj))[:100]); return [(st, UNK)]
        return self.first(st, C)
    m_cbegin = m_begin
    def m_end(self, fn, obj, vs, st, fr, line):
        C = self.container(st, obj)
        if C is None: self.imprecise(st, "end of " + show(self.rv(st, obj))[:100]); return [(st, UNK)]
        return [(st, T("ait", self.endof(C), END, ()))]
    def endof(self, cl): return NOC if cl.op == "tmp" else cl
    m_cend = m_end
    def m_rbegin(self, *a): self.imprecise(a[3], "reverse iteration"); return self.m_begin(*a)
    def m_rend(self, *a): return self.m_end(*a)
    def range_call(self, w, V, st, fr, line):
        return self.m_begin(None, V, [], st, fr, line) if w == "begin" else self.m_end(None, V, [], st, fr, line)
    def count(self, b):
        n = len(b.a[1])
        if b.a[2]: return T("cnt", n, None)
        if b.a[0] == "set":
            em, cnt = self.em, {}
            for e, it in b.a[1]:
                k = repr(self.erase(it, em)); cnt[k] = cnt.get(k, 0) + 1
            return T("cnt", n, None if any(c >= 2 for c in cnt.values()) else n)
        return T("cnt", n, n)
    def m_size(self, fn, obj, vs, st, fr, line):
        c = self.rv(st, obj)
        if c.op == "coll": return [(st, INT(len(c.a)))]
        if c.op == "bag": return [(st, self.count(c))]
        return [(st, T("num"))]
    m_length = m_size
    def m_empty(self, fn, obj, vs, st, fr, line):
        c = self.rv(st, obj)
        if c.op == "coll": return [(st, FALSE if c.a else TRUE)]
        if c.op == "bag":
            if c.a[1]: return [(st, FALSE)]
            if not c.a[2]: return [(st, TRUE)]
            return [(st, UNK)]
        if c.op == "moved": return [(st, UNK)]
        return None
    def m_clear(self, fn, obj, vs, st, fr, line):
        self.write(st, self.loc(obj), T("bag", self.kind(fn), (), False)); return [(st, VOID)]
    def cadd(self, st, obj, item, fn, line, fr, where="back", args=()): raise TooComplex("cadd")
    def m_push_back(self, fn, obj, vs, st, fr, line):
        v = self.consume(st, fn, vs)[0]
        return [(s, VOID) for s, _ in self.put(st, obj, v, "seq")]
    m_push_front = m_push_back
    def m_emplace_back(self, fn, obj, vs, st, fr, line):
        vals = self.consume(st, fn, vs)
        return [(s, LV(T("le", self.loc(obj), e))) for s, e in self.put(st, obj, self.mk(fn, vals), "seq")]
    m_emplace_front = m_emplace_back
    def m_back(self, fn, obj, vs, st, fr, line):
        b = self.bag(st, obj, "seq")
        if b is None or not b.a[1] or b.a[0] == "seqx": self.imprecise(st, "back"); return [(st, UNK)]
        if b.a[0] != "seq": self.imprecise(st, "back of an unordered view")
        return [(st, LV(T("le", self.loc(obj), b.a[1][-1][0])))]
    def setadd(self, fn, obj, item, st, hint):
        k = self.kind(fn)
        if k == "seq": return [(s, T("ait", self.loc(obj), e, ())) for s, e in self.put(st, obj, item, "seq")]
        r = []
        for s2, it in self.lookup(st, obj, self.keyof(item), k):
            if it.a[1] != END: r.append((s2, T("pair", it, FALSE) if not hint else it)); continue
            for s3, e in self.put(s2, obj, item, k, known_new=True):
                i = T("ait", self.loc(obj), e, ())
                r.append((s3, i if hint else T("pair", i, TRUE)))
        return r
    def m_emplace(self, fn, obj, vs, st, fr, line): return self.setadd(fn, obj, self.mk(fn, self.consume(st, fn, vs)), st, False)
    m_try_emplace = m_emplace
    def m_emplace_hint(self, fn, obj, vs, st, fr, line): return self.setadd(fn, obj, self.mk(fn, self.consume(st, fn, vs)[1:]), st, True)
    def m_insert(self, fn, obj, vs, st, fr, line):
        vals = [self.rv(st, v) for v in vs]
        if len(vals) == 2 and vals[0].op == "ait" and vals[1].op == "ait": return self.insert_range(fn, obj, vals, st, fr, line)
        vals = self.consume(st, fn, vs)
        return self.setadd(fn, obj, vals[-1], st, len(vals) > 1)
    def insert_range(self, fn, obj, vals, st, fr, line):
        a, b = vals
        out = []
        if b.a[1] != END: self.imprecise(st, "partial range")
        src = self.bagof(st, a.a[0])
        if src is None: self.imprecise(st, "range of unknown container"); return [(st, VOID)]
        cur = [st]
        # in order; the first of several equal keys wins
        for e, it in src.a[1]:
            nxt = []
            for s in cur: nxt += [s2 for s2, _ in self.put(s, obj, it, self.kind(fn))]
            cur = self.dedup(nxt)
        for s in cur:
            if src.a[2]:
                bb = self.bag(s, obj, self.kind(fn))
                if bb is not None: self.write(s, self.loc(obj), T("bag", bb.a[0], bb.a[1], src.a[2] if bb.a[2] is False else bb.a[2]))
                if bb is not None and bb.a[2] not in (False, src.a[2]): self.imprecise(s, "entries of two shapes")
        return [(s, VOID) for s in cur]
    def m_find(self, fn, obj, vs, st, fr, line):
        if not self.isbag(st, obj): return None
        return self.lookup(st, obj, self.rv(st, vs[0]), self.kind(fn))
    def m_count(self, fn, obj, vs, st, fr, line):
        if not self.isbag(st, obj): return None
        return [(s, INT(0) if it.a[1] == END else INT(1)) for s, it in self.lookup(st, obj, self.rv(st, vs[0]), self.kind(fn))]
    def m_at(self, fn, obj, vs, st, fr, line):
        if not self.isbag(st, obj): return None
        r = []
        for s, it in self.lookup(st, obj, self.rv(st, vs[0]), self.kind(fn)):
            if it.a[1] == END: r.append((s, T("exc", T("thrown", "std::out_of_range", VOID))))
            else: r.append((s, LV(T("lf", self.itloc(s, it), "second"))))
        return r
    def m_lower_bound(self, fn, obj, vs, st, fr, line):
        if not self.isbag(st, obj): return None
        r = []
        for s, it in self.lookup(st, obj, self.rv(st, vs[0]), self.kind(fn)):
            if it.a[1] == END:
                r.append((s.copy(), T("ait", it.a[0], GAP, ())))
            r.append((s, it))
        return r
    def m_erase(self, fn, obj, vs, st, fr, line):
        vals = [self.rv(st, v) for v in vs]
        cl = self.loc(obj)
        b = self.bag(st, obj, self.kind(fn))
        if b is None: return [(st, VOID)]
        if len(vals) == 1 and vals[0].op == "ait":
            it = vals[0]
            if isinstance(it.a[1], T) and it.a[1].op == "#":
                self.write(st, cl, T("bag", b.a[0], tuple(x for x in b.a[1] if x[0] is not it.a[1]), b.a[2]))
                return self.next(st, it)
            self.imprecise(st, "erase"); return [(st, it)]
        if len(vals) == 1:
            r = []
            for s, it in self.lookup(st, obj, vals[0], self.kind(fn)):
                if it.a[1] == END: r.append((s, INT(0))); continue
                b = self.read(s, cl)
                self.write(s, cl, T("bag", b.a[0], tuple(x for x in b.a[1] if x[0] is not it.a[1]), b.a[2]))
                r.append((s, INT(1)))
            return r
        self.imprecise(st, "erase range"); return [(st, VOID)]
    def m_key_comp(self, fn, obj, vs, st, fr, line): return [(st, T("keycomp"))]
    def f_distance(self, fn, obj, vs, st, fr, line): return [(st, T("num"))]
    def f_next(self, fn, obj, vs, st, fr, line):
        v = self.rv(st, vs[0])
        if v.op == "ait" and (len(vs) == 1 or self.rv(st, vs[1]) is INT(1)): return self.next(st, v)
        if v.op == "opit" and (len(vs) == 1 or self.rv(st, vs[1]) is INT(1)): return self.opnext(st, v)
        return super().f_next(fn, obj, vs, st, fr, line)
    def alg(self, st, fr, line, a, b, f, mk):
        a, b = self.rv(st, a), self.rv(st, b)
        if a.op not in ("ait", "opit") or b.a[1] != END: self.imprecise(st, "algorithm over " + show(a)[:80]); return [(st, "n", None)]
        self.nfr += 1
        il = T("lv", "it%d" % self.nfr, fr.id)
        st.store[il] = a
        def condf(x): return [(x, x.store[il].a[1] != END)]
        def body(x):
            out, E = [], LV(self.deref(x.store[il]))
            for s2, V in self.call_value(f, [E], x, fr, line):
                if self.isexc(V): out.append((s2, "throw", V.a[0])); continue
                out.extend(mk(s2, E, V))
            return out
        def inc(x):
            r = []
            for s2, it in (self.next if a.op == "ait" else self.opnext)(x, x.store[il]):
                s2.store[il] = it; r.append((s2, VOID))
            return r
        out = self.loop(st, fr, {"l": line}, condf, body, inc)
        for s2, k, v in out: s2.store.pop(il, None)
        return out
    # operand sequences: every kind in K at least once, in any order and number
    def opnext(self, st, it):
        """opit(K, current | 'end', kinds seen)"""
        K, cur, seen = it.a
        r = []
        for k in K:
            s2 = st.copy()
            r.append((s2, T("opit", K, self.operand(s2, k), tuple(sorted(set(seen) | {k})))))
        if set(seen) >= set(K): r.append((st.copy(), T("opit", K, END, ())))
        return r
    def node(self, st, s_, shape, v=None, s=None):
        return T("node", s_, shape, v or SET(I_, "v", self.fresh(st)), s or self.new(st, s_, "s"), self.fresh(st) if s_ == I_ else OT)
    def operand(self, st, k):
        if k in ("Ia", "Oa", "On", "Oo"): return self.node(st, k[0], k[1])
        return self.new(st, k)
    # ---------------------------------------------------------------- set operations on the point
    def sorts(self, st, xs):
        r = {"s" if sort(x) == "sn" else sort(x) for x in xs} - {"?"}
        if len(r) > 1: self.imprecise(st, "sets of different levels are combined")
        return sorted(r)[0] if r else "?"
    def op_union(self, st, xs):
        xs = [x.a[0] if x.op == "moved" else x for x in xs]
        z = self.sorts(st, xs)
        if not xs: return [(st, self.new(st, E_, z))]
        if len({tagof(x) for x in xs}) == 1: return [(st, xs[0])]
        ys = [x for x in xs if sym(x) != E_]
        if len(ys) == 1: return [(st, ys[0])]
        return [(st, self.new(st, I_ if any(sym(x) == I_ for x in ys) else E_ if not ys else O_, z))]
    def op_inter(self, st, xs):
        xs = [x.a[0] if x.op == "moved" else x for x in xs]
        z = self.sorts(st, xs)
        if not xs: return [(st, self.new(st, E_, z))]
        if any(sym(x) == E_ for x in xs): return [(st, self.new(st, E_, z))]
        if len({tagof(x) for x in xs}) == 1 and tagof(xs[0]).op != "o": return [(st, xs[0])]
        if all(sym(x) == I_ for x in xs): return [(st, self.new(st, I_, z))]
        s2 = st.copy()
        return [(st, self.new(st, E_, z)), (s2, self.new(s2, O_, z))]
    def op_diff(self, st, a, b):
        a = a.a[0] if a.op == "moved" else a; b = b.a[0] if b.op == "moved" else b
        z = self.sorts(st, (a, b))
        if (tagof(a) is tagof(b) and tagof(a).op != "o") or sym(a) == E_: return [(st, self.new(st, E_, z))]
        if sym(b) == E_: return [(st, a)]
        if sym(a) == I_ and sym(b) == O_: return [(st, self.new(st, I_, z))]
        s2 = st.copy()
        return [(st, self.new(st, E_, z)), (s2, self.new(s2, O_, z))]
    # ---------------------------------------------------------------- construction
    def construct_with(self, fn, cls, vs, s, fr, l, placed, line):
        r = super().construct_with(fn, cls, vs, s, fr, l, placed, line)
        for s2, k, v in r:
            if k == "n": self.collapse(s2, cls, l)
        return r
    def collapse(self, st, cls, l): pass
    def ctor_value(self, fn, cls, vs, s, fr, line):
        v = super().ctor_value(fn, cls, vs, s, fr, line)
        if v.op == "ctor" and cls.qn in engine.CONTAINERS and vs:
            vals = [self.rv(s, x) for x in vs]
            if len(vals) >= 2 and vals[0].op == "ait" and vals[1].op == "ait":
                b = self.bagof(s, vals[0].a[0])
                if b is not None and vals[1].a[1] == END: return b
        return v

class NeedFork(AnalysisBroken): pass
