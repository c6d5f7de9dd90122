"""Extraction of the real code: clang's AST of /repo's current sources, read back as JSON.

Nothing is transcribed by hand.  What the extraction drops: comments, attributes, access specifiers, and the
bodies of functions that are not reachable from a function under contract.  Loading is per translation unit;
functions outside namespace soil_simulator (static helpers a refactoring may add) are fetched on demand."""
import json, subprocess, os, hashlib, pickle, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DV_REPO", "/repo")
CLANG = "clang++-18"


class FrontendError(Exception):
    pass


def sources():
    d = os.path.join(REPO, "soil_simulator")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp") and f != "main.cpp")


def dump(path, flt):
    cmd = [CLANG, "-std=c++20", "-I" + REPO, "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + flt, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise FrontendError("clang failed on %s: %s" % (path, r.stderr[-2000:]))
    s = r.stdout
    dec = json.JSONDecoder()
    docs = []
    i = 0
    n = len(s)
    while i < n:
        j = s.find("{", i)
        if j < 0:
            break
        d, i = dec.raw_decode(s, j)
        docs.append(d)
    return docs


KEEP = ("id", "kind", "name", "type", "value", "opcode", "castKind", "isPostfix", "valueCategory", "isArrow",
        "referencedMemberDecl", "init", "cond", "hasInit", "hasVar", "hasElse", "storageClass", "conversionFunc",
        "argType", "ctorType", "list", "parentDeclContextId", "isArray", "elidable", "constexpr", "previousDecl",
        "anyInit", "isImplicit", "hadMultipleCandidates", "label", "baseInit", "tagUsed", "bases", "inline")
DROP_KINDS = {"FullComment", "ParagraphComment", "TextComment", "VerbatimBlockComment", "VerbatimBlockLineComment",
              "BlockCommandComment", "ParamCommandComment", "InlineCommandComment", "VerbatimLineComment",
              "AccessSpecDecl", "HTMLStartTagComment", "HTMLEndTagComment"}


class Node:
    __slots__ = ("k", "d", "inner", "line", "col", "file")

    def __init__(self, k, d, inner, line, file):
        self.k, self.d, self.inner, self.line, self.file = k, d, inner, line, file

    def get(self, x, default=None):
        return self.d.get(x, default)

    @property
    def name(self):
        return self.d.get("name")

    @property
    def qt(self):
        t = self.d.get("type")
        if not t:
            return None
        return t.get("desugaredQualType") or t.get("qualType")

    @property
    def qt0(self):
        t = self.d.get("type")
        return t.get("qualType") if t else None

    @property
    def ref(self):
        r = self.d.get("referencedDecl")
        return r

    def __repr__(self):
        return "<%s %s @%s>" % (self.k, self.name or "", self.line)


class Conv:
    """clang only prints file/line when they change from the previously printed location: track them."""

    def __init__(self):
        self.file = None
        self.line = 0

    def loc(self, l):
        if not l:
            return
        for key in ("spellingLoc", "expansionLoc"):
            if key in l:
                self.loc(l[key])
        if "file" in l:
            self.file = l["file"]
        if "line" in l:
            self.line = l["line"]

    def conv(self, d):
        if "kind" not in d:
            return Node(None, {}, [], self.line, self.file)
        if d["kind"] in DROP_KINDS:
            # still advances the location tracking
            self.walkloc(d)
            return None
        self.loc(d.get("loc"))
        line, file = self.line, self.file
        rng = d.get("range") or {}
        self.loc(rng.get("begin"))
        if "loc" not in d:
            line, file = self.line, self.file
        self.loc(rng.get("end"))
        keep = {k: d[k] for k in KEEP if k in d}
        if "referencedDecl" in d:
            r = d["referencedDecl"]
            keep["referencedDecl"] = r
        if "decl" in d:
            keep["decl"] = d["decl"]
        if "ctorDecl" in d:
            keep["ctorDecl"] = d["ctorDecl"]
        if "lookupDecl" in d:
            keep["lookupDecl"] = d["lookupDecl"]
        inner = []
        for c in d.get("inner") or []:
            n = self.conv(c)
            if n is not None:
                inner.append(n)
        if "array_filler" in d:
            keep["array_filler"] = True
        return Node(d["kind"], keep, inner, line, file)

    def walkloc(self, d):
        self.loc(d.get("loc"))
        rng = d.get("range") or {}
        self.loc(rng.get("begin"))
        self.loc(rng.get("end"))
        for c in d.get("inner") or []:
            if isinstance(c, dict):
                self.walkloc(c)


FUNC = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")


class Func:
    def __init__(self, node, tu, cls=None):
        self.node, self.tu, self.cls = node, tu, cls
        self.name = node.name
        self.qt = node.qt0 or node.qt
        self.params = [c for c in node.inner if c.k == "ParmVarDecl"]
        self.body = next((c for c in node.inner if c.k in ("CompoundStmt", "CXXTryStmt")), None)
        self.inits = [c for c in node.inner if c.k == "CXXCtorInitializer"]
        self.ret = self.qt.split("(")[0].strip() if self.qt else ""

    def __repr__(self):
        return "<Func %s %s>" % (self.name, self.qt)


class Program:
    def __init__(self):
        self.funcs = {}     # (name) -> [Func]
        self.byid = {}      # (tu, id) -> Func
        self.records = {}   # struct name -> [(field, qualtype)]
        self.bases = {}
        self.globals = {}   # (tu,id) or name -> node
        self.enums = {}
        self.fetched = set()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda f: (f, dump(f, "soil_simulator")), sources()))
        for f, docs in res:
            self.add(f, docs)

    def add(self, tu, docs):
        for d in docs:
            cv = Conv()
            n = cv.conv(d)
            if n is not None:
                self.scan(tu, n, None)

    def scan(self, tu, n, cls):
        if n.k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in n.inner:
                self.scan(tu, c, cls)
        elif n.k == "FunctionTemplateDecl":
            for c in n.inner:
                if c.k in FUNC:
                    # only instantiations carry concrete types
                    self.scan(tu, c, cls)
        elif n.k == "ClassTemplateDecl":
            pass
        elif n.k in FUNC:
            f = Func(n, tu, cls)
            self.byid[(tu, n.get("id"))] = f
            if f.body is not None or f.inits:
                lst = self.funcs.setdefault(n.name, [])
                if not any(g.qt == f.qt and g.tu == f.tu and g.node.line == f.node.line for g in lst):
                    lst.append(f)
        elif n.k == "CXXRecordDecl":
            fl = [(c.name, c.qt, c) for c in n.inner if c.k == "FieldDecl"]
            if n.name and (fl or n.get("bases")) and n.name not in self.records:
                self.records[n.name] = fl
                self.bases[n.name] = [b["type"].get("desugaredQualType") or b["type"]["qualType"]
                                      for b in n.get("bases") or []]
            for c in n.inner:
                if c.k in FUNC or c.k == "CXXRecordDecl" or c.k == "FunctionTemplateDecl":
                    self.scan(tu, c, n.name)
        elif n.k == "VarDecl":
            self.globals[(tu, n.get("id"))] = n
            if n.inner:
                self.globals.setdefault(n.name, n)
        elif n.k == "EnumDecl":
            v = -1
            for c in n.inner:
                if c.k == "EnumConstantDecl":
                    val = None
                    st = [c]
                    while st:
                        x = st.pop()
                        if x.get("value") is not None:
                            val = int(x.get("value"))
                            break
                        st.extend(x.inner)
                    v = val if val is not None else v + 1
                    self.enums[c.name] = v

    def fetch(self, tu, name):
        """a function or variable outside the namespace: ask clang for it by name"""
        key = (tu, name)
        if key in self.fetched or not re.fullmatch(r"[A-Za-z_]\w*", name or ""):
            return
        self.fetched.add(key)
        docs = [d for d in dump(tu, name) if d.get("name") == name]
        self.add(tu, docs)

    def find(self, name, qt=None, tu=None, cls=None):
        c = self.funcs.get(name, [])
        if qt is not None:
            nq = normqt(qt)
            c2 = [f for f in c if normqt(f.qt) == nq]
            if c2:
                c = c2
            elif len(c) > 1:
                return None
        if tu is not None:
            c3 = [f for f in c if f.tu == tu]
            if c3:
                c = c3
        return c[0] if c else None


def normqt(q):
    q = re.sub(r"\bsoil_simulator::", "", q)
    q = re.sub(r"\b(class|struct)\s+", "", q)
    q = q.replace(", std::allocator<float>", "")
    return re.sub(r"\s+", "", q)


_cache = None


def load():
    global _cache
    if _cache is None:
        _cache = Program()
    return _cache


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(time.time() - t)
    for n, fs in sorted(p.funcs.items()):
        for f in fs:
            print(n, f.qt, f.cls, os.path.basename(f.tu), f.node.line, f.node.file)
    print(p.records.keys(), p.bases)
