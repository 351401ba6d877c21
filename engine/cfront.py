"""C front end: clang's own AST (JSON) of the real sources of /repo/src -> compact trees.

Nothing is rewritten by hand: every run calls clang on the current files.  What is kept: function
definitions, global variables, records, enums declared in /repo/src.  What is dropped: comments, and
everything the preprocessor removes under the build's own flags (-fopenmp, no _FLOAT32, no _CUBA15).
"""
import json, os, subprocess, hashlib, pickle, re, sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(HERE, "include")
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

class N(object):
    __slots__ = ("k", "ty", "v", "c", "line", "x")
    def __init__(self, k, ty=None, v=None, c=(), line=None, x=None):
        self.k, self.ty, self.v, self.c, self.line, self.x = k, ty, v, c, line, x
    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join([repr(self.v)] + [repr(z) for z in self.c]))

class Fn(object):
    __slots__ = ("name", "file", "params", "ret", "body", "line", "static", "text")
class Gv(object):
    __slots__ = ("name", "file", "ty", "init", "static", "tls", "extern", "line", "const")

class FrontendError(Exception):
    pass

def tystr(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""

class Conv(object):
    def __init__(self, fname):
        self.fname = fname
        self.line = 0
        self.file = ""
        self.dropped = set()

    def see(self, loc):
        """follow clang's delta-coded locations in document order"""
        if not loc: return None
        if "spellingLoc" in loc:
            self.see(loc["spellingLoc"])
            return self.see(loc["expansionLoc"])
        if "file" in loc: self.file = loc["file"]
        if "line" in loc: self.line = loc["line"]
        return self.line

    def locs(self, n):
        l = None
        if "loc" in n: l = self.see(n["loc"])
        r = n.get("range")
        if r:
            b = self.see(r.get("begin"))
            f = self.file
            self.see(r.get("end"))
            if b: l = b
        return l

    def skip(self, n):
        """walk only for the locations"""
        self.locs(n)
        for c in n.get("inner", ()): self.skip(c)

    def kids(self, n):
        return [self.conv(c) for c in n.get("inner", ()) if c.get("kind") is not None or not c]

    def conv(self, n):
        if not n: return N("Null")
        k = n["kind"]
        line = self.locs(n)
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups"):
            out = [self.conv(c) for c in inner]
            return out[0]
        if k == "IntegerLiteral": return N("Int", tystr(n), int(n["value"]), (), line)
        if k == "CharacterLiteral": return N("Int", tystr(n), int(n["value"]), (), line)
        if k == "FloatingLiteral": return N("Flt", tystr(n), n["value"], (), line)
        if k == "StringLiteral": return N("Str", tystr(n), json.loads(n["value"]) if n["value"].startswith('"') else n["value"], (), line)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n.get("castKind")
            sub = [self.conv(c) for c in inner]
            return N("Cast", tystr(n), ck, (sub[-1],), line)
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            for c in inner: self.skip(c)
            return N("Ref", tystr(n), r["name"], (), line, (r["kind"], r["id"]))
        if k == "MemberExpr":
            sub = [self.conv(c) for c in inner]
            return N("Mem", tystr(n), n["name"], tuple(sub), line, bool(n.get("isArrow")))
        if k == "UnaryExprOrTypeTraitExpr":
            sub = [self.conv(c) for c in inner]
            at = n.get("argType")
            t = (at.get("desugaredQualType") or at.get("qualType")) if at else (sub[0].ty if sub else "")
            return N("Sizeof", tystr(n), t, (), line, n.get("name"))
        if k == "DeclStmt":
            return N("Decls", None, None, tuple(self.conv(c) for c in inner), line)
        if k == "VarDecl":
            sub = [self.conv(c) for c in inner if not c.get("kind", "").endswith("Attr")]
            return N("Var", tystr(n), n["name"], tuple(sub), line, (n["id"], n.get("storageClass")))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            sub = [self.conv(c) for c in inner]
            x = None
            if k == "CompoundAssignOperator":
                ct = n.get("computeResultType") or {}
                x = ct.get("desugaredQualType") or ct.get("qualType")
            return N("Bin" if k == "BinaryOperator" else "CAs", tystr(n), n["opcode"], tuple(sub), line, x)
        if k == "UnaryOperator":
            sub = [self.conv(c) for c in inner]
            return N("Un", tystr(n), n["opcode"], tuple(sub), line, bool(n.get("isPostfix")))
        if k == "OMPParallelDirective" or k == "OMPForDirective" or k == "OMPCriticalDirective" or k.startswith("OMP") and k.endswith("Directive"):
            sub = []
            for c in inner:
                ck = c.get("kind", "")
                if ck.endswith("Clause") or ck == "" or "clausekind" in c:
                    ck = c.get("clausekind", ck)
                    self.skip(c) if c else None
                    sub.append(N("Clause", None, ck, (), None, self.clause(c)))
                else: sub.append(self.conv(c))
            return N(k, None, None, tuple(sub), line)
        if k == "CapturedStmt":
            sub = [self.conv(c) for c in inner if c.get("kind") == "CapturedDecl"]
            for c in inner:
                if c.get("kind") != "CapturedDecl": self.skip(c)
            return sub[0]
        if k == "CapturedDecl":
            body = None
            for c in inner:
                if c.get("kind") in ("ImplicitParamDecl",) or c.get("kind", "").endswith(("Attr",)): self.skip(c)
                elif c.get("kind", "").endswith("Decl"): self.skip(c)
                else: body = self.conv(c)
            return body
        names = {"CompoundStmt": "Block", "IfStmt": "If", "ForStmt": "For", "WhileStmt": "While", "DoStmt": "Do",
                 "ReturnStmt": "Ret", "BreakStmt": "Brk", "ContinueStmt": "Cont", "NullStmt": "Nop",
                 "ArraySubscriptExpr": "Idx", "CallExpr": "Call", "ConditionalOperator": "Cond",
                 "InitListExpr": "InitList", "ImplicitValueInitExpr": "Zero", "SwitchStmt": "Switch",
                 "CaseStmt": "Case", "DefaultStmt": "Default", "CompoundLiteralExpr": "CompLit", "GotoStmt": "Goto",
                 "LabelStmt": "Label"}
        sub = []
        filler = None
        for c in inner:
            sub.append(self.conv(c))
        if k == "InitListExpr" and "array_filler" in n:
            sub = [self.conv(c) for c in n["array_filler"]]
            sub = [s for s in sub if s.k != "Zero"]
            return N("InitList", tystr(n), "filled", tuple(sub), line)
        if k == "IfStmt" or k == "ForStmt":
            x = n.get("hasInit"), n.get("hasVar"), n.get("hasElse")
        else: x = None
        if k not in names:
            return N("Unknown", tystr(n), k, tuple(sub), line)
        return N(names[k], tystr(n), None, tuple(sub), line, x)

    def clause(self, c):
        out = []
        def w(n):
            if n.get("kind") == "DeclRefExpr": out.append((n["referencedDecl"]["name"], n["referencedDecl"]["id"]))
            for z in n.get("inner", ()): w(z)
        if c: w(c)
        return out

def incflags():
    return ["-fopenmp", "-isystem", INC, "-I" + INC]

def clause_kinds(d, path):
    """the JSON dump leaves out the kinds of OpenMP clauses: take them, in order, from the text dump"""
    cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump", "-fno-color-diagnostics"] + incflags() + [path]
    txt = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode()
    kinds = re.findall(r"^[ |`-]*-(OMP\w+Clause) ", txt, re.M)
    pos = [0]
    def walk(n):
        omp = n.get("kind", "").startswith("OMP") and n["kind"].endswith("Directive")
        for c in n.get("inner", ()):
            if not c: 
                if not omp: continue
            if omp and c.get("kind", "") in ("", None):
                if pos[0] >= len(kinds): raise FrontendError("OpenMP clauses of " + path)
                c["clausekind"] = kinds[pos[0]]; pos[0] += 1
                continue
            walk(c)
    walk(d)
    if pos[0] != len(kinds): raise FrontendError("OpenMP clauses of %s: %d of %d" % (path, pos[0], len(kinds)))

def parse_file(path):
    fname = os.path.basename(path)
    cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] + incflags() + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontendError("clang failed on %s:\n%s" % (path, p.stderr.decode()[-2000:]))
    d = json.loads(p.stdout)
    if b"OMP" in p.stdout: clause_kinds(d, path)
    cv = Conv(fname)
    fns, gvs, recs, enums, protos = {}, {}, {}, {}, {}
    tls = set()
    srcdir = os.path.dirname(os.path.abspath(path))
    for n in d["inner"]:
        k = n.get("kind")
        # location of the declaration itself
        loc = n.get("loc") or {}
        base = loc.get("expansionLoc") or loc
        if "file" in (loc.get("spellingLoc") or {}): cv.file = loc["spellingLoc"]["file"]
        if "file" in base: cv.file = base["file"]
        here = os.path.dirname(os.path.abspath(cv.file)) == srcdir if cv.file else False
        if not here:
            if k == "OMPThreadPrivateDecl" : pass
            else:
                cv.skip(n)
                continue
        if k == "FunctionDecl":
            name = n["name"]
            has_body = any(c.get("kind") == "CompoundStmt" for c in n.get("inner", ()))
            qt = n["type"]["qualType"]
            f = Fn()
            f.name, f.file = name, os.path.basename(cv.file)
            f.line = cv.locs(n)
            f.static = n.get("storageClass") == "static"
            f.ret = qt[:qt.index("(")].strip()
            f.params, f.body, f.text = [], None, None
            for c in n.get("inner", ()):
                ck = c.get("kind", "")
                if ck == "ParmVarDecl":
                    cv.locs(c)
                    for z in c.get("inner", ()): cv.skip(z)
                    f.params.append((c.get("name"), tystr(c), c["id"]))
                elif ck == "CompoundStmt":
                    f.body = cv.conv(c)
                else: cv.skip(c)
            if has_body: fns[name] = f
            else: protos.setdefault(name, f)
        elif k == "VarDecl":
            g = Gv()
            g.name, g.file, g.ty = n["name"], fname, tystr(n)
            g.const = g.ty.startswith("const ")
            g.static = n.get("storageClass") == "static"
            g.extern = n.get("storageClass") == "extern"
            g.line = cv.locs(n)
            g.init = None
            g.tls = bool(n.get("tls"))
            for c in n.get("inner", ()):
                if c.get("kind", "").endswith("Attr"):
                    if "ThreadPrivate" in c["kind"]: g.tls = True
                    cv.skip(c)
                else: g.init = cv.conv(c)
            old = gvs.get(g.name)
            if old is None or not g.extern: gvs[g.name] = g
        elif k == "OMPThreadPrivateDecl":
            def w(z):
                if z.get("kind") == "DeclRefExpr": tls.add(z["referencedDecl"]["name"])
                for q in z.get("inner", ()): w(q)
            w(n); cv.skip(n)
        elif k == "RecordDecl":
            cv.skip(n)
            fl = [(c["name"], tystr(c)) for c in n.get("inner", ()) if c.get("kind") == "FieldDecl"]
            recs[n["id"]] = (n.get("name"), fl)
        elif k == "TypedefDecl":
            cv.skip(n)
            def w(z):
                o = z.get("ownedTagDecl") or z.get("decl")
                if o and o.get("id") in recs: recs[n["name"]] = recs[o["id"]]
                for q in z.get("inner", ()): w(q)
            w(n)
        elif k == "EnumDecl":
            cv.skip(n)
            v = 0
            for c in n.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    # explicit values
                    def find(z):
                        if z.get("kind") == "ConstantExpr" and "value" in z: return int(z["value"])
                        for q in z.get("inner", ()):
                            r = find(q)
                            if r is not None: return r
                    r = find(c)
                    if r is not None: v = r
                    enums[c["name"]] = v
                    v += 1
        else:
            cv.skip(n)
    for t in tls:
        if t in gvs: gvs[t].tls = True
    recs = {k: v[1] for k, v in recs.items() if not k.startswith("0x")}
    return dict(file=fname, fns=fns, gvs=gvs, recs=recs, enums=enums, protos=protos)

def makefile_sources():
    txt = open(os.path.join(SRC, "Makefile")).read()
    out = []
    for m in re.finditer(r"^SRC\s*\+?=\s*(.*)$", txt, re.M):
        for w in m.group(1).split():
            if w.endswith(".c") and w not in out: out.append(w)
    return out

def digest():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)) + []:
        p = os.path.join(SRC, f)
        if os.path.isfile(p) and f.endswith((".c", ".h", "Makefile")):
            h.update(f.encode()); h.update(open(p, "rb").read())
    for p in (__file__, ):
        h.update(open(p, "rb").read())
    return h.hexdigest()

class Program(object):
    """All translation units; static names are qualified by file."""
    def __init__(self, units):
        self.units = units          # file -> unit
        self.recs, self.enums = {}, {}
        for u in units.values():
            self.recs.update(u["recs"]); self.enums.update(u["enums"])
    def fn(self, name, file=None):
        if file and name in self.units.get(file, {"fns": {}})["fns"]: return self.units[file]["fns"][name]
        for u in self.units.values():
            f = u["fns"].get(name)
            if f is not None and not f.static: return f
        return None
    def find(self, name):
        """the function called name wherever it is defined, static or not; None when ambiguous"""
        c = [u["fns"][name] for u in self.units.values() if name in u["fns"]]
        return c[0] if len(c) == 1 else None
    def gv(self, name, file):
        u = self.units[file]
        g = u["gvs"].get(name)
        if g is not None and (g.static or not g.extern): return g
        for v in self.units.values():
            h = v["gvs"].get(name)
            if h is not None and not h.static and not h.extern: return h
        return g
    def unit_of(self, f): return f.file

def load(files=None, cache_dir=None):
    names = makefile_sources()
    if files is not None: names = [n for n in names if n in files]
    cache_dir = cache_dir or os.path.join(os.environ.get("VERIF_CACHE", "/tmp/verif_cache_%d" % os.getuid()))
    os.makedirs(cache_dir, exist_ok=True)
    hdr = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".h"): hdr.update(f.encode()); hdr.update(open(os.path.join(SRC, f), "rb").read())
    hdr.update(open(__file__, "rb").read())
    units, todo = {}, []
    for n in names:
        p = os.path.join(SRC, n)
        h = hashlib.sha256(hdr.digest() + n.encode() + open(p, "rb").read()).hexdigest()[:24]
        cp = os.path.join(cache_dir, "ast_%s_%s.pkl" % (n, h))
        if os.path.exists(cp):
            try:
                units[n] = pickle.load(open(cp, "rb")); continue
            except Exception: pass
        todo.append((n, p, cp))
    if todo:
        big = {t[0]: os.path.getsize(t[1]) for t in todo}
        todo.sort(key=lambda t: -big[t[0]])
        with ProcessPoolExecutor(max_workers=6) as ex:
            for (n, p, cp), u in zip(todo, ex.map(parse_file, [t[1] for t in todo])):
                units[n] = u
                tmp = cp + ".%d" % os.getpid()
                pickle.dump(u, open(tmp, "wb")); os.replace(tmp, cp)
    return Program({n: units[n] for n in names})

if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(time.time() - t)
    for f, u in P.units.items():
        print(f, {k: v.line for k, v in u["fns"].items()})
        print("   ", {k: (v.ty, v.static, v.tls) for k, v in u["gvs"].items()})
    print(P.recs); print(P.enums)
    unk = {}
    def w(n, f):
        if n.k == "Unknown": unk.setdefault(n.v, []).append((f, n.line))
        for c in n.c: w(c, f)
    for u in P.units.values():
        for f in u["fns"].values(): w(f.body, f.name)
    print(unk)
