"""Loads the exported program (see tool/sddx.cc). Every run re-exports /repo's current tree; the
export is cached under /verif/build keyed by a hash of every input, so that several checks run on
the same tree share it."""
import hashlib, json, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SDDX_REPO", "/repo")

class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, tree does not parse...)."""

def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "sdd")):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)

def export():
    b = os.environ.get("SDDX_CACHE", os.path.join(VERIF, "build"))
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(VERIF, "build.sh")], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken("plugin build failed: " + r.stderr[-2000:])
        so = os.path.join(VERIF, r.stdout.strip().splitlines()[-1])
        tu = os.path.join(VERIF, "tu", "all.cc")
        key = _hash(sources() + [tu, so])
        out = os.path.join(b, "export-%s.json" % key)
        if os.path.exists(out): return out
        for f in os.listdir(b):                     # keep only a few exports
            if f.startswith("export-"):
                p = os.path.join(b, f)
                olds = sorted((os.path.getmtime(os.path.join(b, g)), g) for g in os.listdir(b) if g.startswith("export-"))
                for _, g in olds[:-3]:
                    try: os.remove(os.path.join(b, g))
                    except OSError: pass
                break
        err = ""
        for defs in ([], ["-DSDDX_PUBLIC_ONLY"]):
            tmp = out + ".%d" % os.getpid()
            cmd = ["clang++", "-std=c++1y", "-DNDEBUG", "-I" + REPO, "-fsyntax-only", "-w", tu] + defs
            for a in ["-load", so, "-plugin", "sddx", "-plugin-arg-sddx", "out=" + tmp,
                      "-plugin-arg-sddx", "root=" + REPO + "/sdd/", "-plugin-arg-sddx", "root=" + VERIF + "/tu/"]:
                cmd += ["-Xclang", a]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0 and os.path.exists(tmp):
                os.rename(tmp, out); return out
            err = r.stderr
        raise AnalysisBroken("the tree does not type-check: " + err[:3000])

class Fn:
    __slots__ = ("id","qn","ta","file","line","col","mine","rt","rc","cls","const","static","virtual","acc","kind","ck",
                 "deleted","defaulted","implicit","noreturn","nothrow","params","inits","body","endline","prog","name","conf")
    def __init__(self, prog, i, d):
        self.prog, self.id = prog, i
        for k in ("qn","ta","line","col","mine","rt","rc","cls","const","static","virtual","acc","kind","ck","deleted",
                  "defaulted","implicit","noreturn","nothrow","params","inits","body","endline"):
            setattr(self, k, d.get(k))
        self.file = prog.files[d["file"]]
        self.name = self.qn.rsplit("::", 1)[-1]
        self.rt = prog.types[self.rt] if self.rt is not None and self.rt >= 0 else ""
        c = prog.rawcls[self.cls] if self.cls is not None and self.cls >= 0 else None
        s = (self.ta or "") + ((c.get("ta") or "") if c else "")
        self.conf = s
    @property
    def rel(self): return self.file.replace(REPO + "/", "")
    def where(self): return "%s:%d" % (self.rel, self.line)
    def __repr__(self): return "<%s%s @%s>" % (self.qn, self.ta or "", self.where())
    @property
    def klass(self): return self.prog.classes[self.cls] if self.cls is not None and self.cls >= 0 else None

class Cls:
    def __init__(self, prog, i, d):
        self.prog, self.id, self.d = prog, i, d
        self.qn, self.ta, self.line, self.mine = d["qn"], d.get("ta") or "", d["line"], d["mine"]
        self.file = prog.files[d["file"]]
        self.type = prog.types[d["type"]] if d["type"] >= 0 else ""
        self.fields = d.get("fields") or []
        self.methods = d.get("methods") or []
        self.bases = d.get("bases") or []
        self.friends = d.get("friends") or []
        self.islambda = d["lambda"]
    @property
    def rel(self): return self.file.replace(REPO + "/", "")
    def where(self): return "%s:%d" % (self.rel, self.line)
    def __repr__(self): return "<class %s%s>" % (self.qn, self.ta)

class Program:
    def __init__(self, path=None):
        path = path or export()
        d = json.load(open(path))
        self.files, self.types, self.rawcls = d["files"], d["types"], d["classes"]
        self.classes = [Cls(self, i, c) for i, c in enumerate(d["classes"])]
        self.fns = [Fn(self, i, f) for i, f in enumerate(d["fns"])]
        self.patterns = d["patterns"]
        self.by_qn, self.cls_by_qn = {}, {}
        for f in self.fns: self.by_qn.setdefault(f.qn, []).append(f)
        for c in self.classes: self.cls_by_qn.setdefault(c.qn, []).append(c)
        self.by_cls = {}
        for f in self.fns:
            if f.cls is not None and f.cls >= 0: self.by_cls.setdefault(f.cls, []).append(f)
    def mine(self):
        pre = REPO + "/sdd/"
        return [f for f in self.fns if f.body is not None and f.file.startswith(pre)]
    def find(self, qn, need=True, body=True, pred=None):
        r = [f for f in self.by_qn.get(qn, []) if (f.body is not None or not body) and (pred is None or pred(f))]
        if need and not r: raise AnalysisBroken("anchor vanished: no function " + qn)
        return r
    def cls(self, qn, need=True):
        r = self.cls_by_qn.get(qn, [])
        if need and not r: raise AnalysisBroken("anchor vanished: no class " + qn)
        return r
    def type(self, i): return self.types[i] if i is not None and i >= 0 else ""
    def methods_of(self, cls, name=None):
        return [f for f in self.by_cls.get(cls.id, []) if name is None or f.name == name]
    def uninstantiated(self):
        have = {(f.file, f.line, f.col) for f in self.fns if f.body is not None}
        return [p for p in self.patterns if (self.files[p["file"]], p["line"], p["col"]) not in have and self.files[p["file"]].startswith(REPO + "/sdd/")]

def walk(n):
    """all dict nodes below n (statements and expressions)"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(x)
