"""Loads the clang AST of a translation unit of /repo (re-run on every check)."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get("KV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

class ExtractionError(Exception):
    pass

BASE_FLAGS = ["-std=c++11", "-fsyntax-only", "-w", "-fopenmp", "-DUSE_NUMA", "-DSTATISTICS"]

def includes():
    return ["-I" + os.path.join(HERE, "include")] + [
        "-I%s/%s" % (REPO, d) for d in ("libkcommon", "libman", "libauto", "libdist")] + ["-I/usr/lib/x86_64-linux-gnu/mpich/include"]

def dump(src, flt, extra=()):
    cmd = ["clang++"] + BASE_FLAGS + includes() + list(extra) + [
        "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, src]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise ExtractionError("clang failed on %s: %s" % (src, r.stderr[:2000]))
    s = r.stdout
    out = []
    d = json.JSONDecoder()
    i = 0
    while True:
        j = s.find("{", i)
        if j < 0:
            break
        o, i = d.raw_decode(s, j)
        out.append(o)
    return out

class Func:
    __slots__ = ("node", "name", "qname", "cls", "tparams", "params", "body", "ret",
                 "is_method", "static", "virtual", "type", "id", "inits", "const", "kind", "line", "file", "dtype")

class Record:
    def __init__(self, name, node):
        self.name = name; self.node = node
        self.bases = []      # names (no template args)
        self.fields = {}     # name -> type dict
        self.is_union = node.get("tagUsed") == "union"
        self.methods = []

def qt(t):
    return t.get("desugaredQualType") or t.get("qualType")

class TU:
    """All knor functions and records of one translation unit, indexed by clang ids."""
    def __init__(self, src, filters=("knor",), extra=()):
        self.src = src
        self.decls = {}      # id -> node
        self.parent = {}     # id -> qualified prefix
        self.funcs = []      # Func with body
        self.by_id = {}      # decl id -> Func (canonical def), after linking
        self.records = {}
        self.rec_by_id = {}
        self.globals = {}
        self.ns_of = {}; self.enums = {}; self.enum_names = {}
        self.prev = {}
        self.fn_decl_ctx = {}
        self.default_args = {}
        self.curfile = src
        self.curline = 0
        for f in filters:
            for o in dump(src, f, extra):
                # a filter such as "no" (knor and the unnamed namespace) also matches library names: only these two namespaces are kept
                if f != "knor" and not (o.get("kind") == "NamespaceDecl" and o.get("name") in (None, "knor")): continue
                self._walk(o, "", None, None)
        self._link()

    def _targs(self, node):
        return [qt(x["type"]) if "type" in x else str(x.get("value")) for x in node.get("inner", [])
                if x.get("kind") == "TemplateArgument" and ("type" in x or "value" in x)]

    def _loc(self, n):
        l = n.get("loc", {})
        if "expansionLoc" in l:
            l = l["expansionLoc"]
        if "file" in l:
            self.curfile = l["file"]
        if "line" in l:
            self.curline = l["line"]

    def _walk(self, n, prefix, rec, tpl):
        k = n.get("kind")
        if not k:
            return
        self._loc(n)
        if k == "NamespaceDecl":
            p = prefix + (n.get("name") + "::" if n.get("name") else "")
            self.ns_of[n["id"]] = p
            for x in n.get("inner", []):
                self._walk(x, p, None, None)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            self.decls[n["id"]] = n
            q = prefix + n.get("name", "anon")
            if k == "ClassTemplateSpecializationDecl" and not prefix: q = self.ns_of.get(n.get("parentDeclContextId"), "") + q
            if n.get("completeDefinition"):
                tq = q
                if k == "ClassTemplateSpecializationDecl":
                    tq = q + "<" + ",".join(self._targs(n)) + ">"
                r = Record(tq, n)
                dependent = (tpl is not None and k == "CXXRecordDecl")
                r.dependent = dependent
                for b in n.get("bases", []):
                    r.bases.append(qt(b["type"]))
                if not dependent:
                    self.records[tq] = r
                self.rec_by_id[n["id"]] = r
                for x in n.get("inner", []):
                    if x.get("kind") == "FieldDecl":
                        r.fields[x["name"] if "name" in x else "_anon"] = x["type"]
                        self.decls[x["id"]] = x
                    elif x.get("kind") == "VarDecl":
                        self.decls[x["id"]] = x; self.globals[x["id"]] = (q + "::" + x["name"], x)
                    else:
                        self._walk(x, q + "::", r, tpl if dependent else None)
        elif k == "ClassTemplateDecl":
            for x in n.get("inner", []):
                if x.get("kind") == "CXXRecordDecl":
                    self._walk(x, prefix, None, n)
                elif x.get("kind", "").startswith("ClassTemplateSpec"):
                    self._walk(x, prefix, None, None)
        elif k == "FunctionTemplateDecl":
            first = True
            for x in n.get("inner", []):
                if x.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    self._func(x, prefix, rec, dependent=(first or tpl is not None))
                    first = False
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._func(n, prefix, rec, dependent=(tpl is not None))
        elif k == "VarDecl":
            self.decls[n["id"]] = n
            self.globals[n["id"]] = (prefix + n["name"], n)
        elif k == "EnumDecl":
            val = -1
            for x in n.get("inner", []):
                if x.get("kind") == "EnumConstantDecl":
                    v = None
                    for y in x.get("inner", []):
                        if "value" in y:
                            v = int(y["value"])
                    val = v if v is not None else val + 1
                    self.enums[x["id"]] = val; self.enum_names[x["name"]] = val
                    self.decls[x["id"]] = x
        elif k in ("LinkageSpecDecl", "ExportDecl"):
            for x in n.get("inner", []):
                self._walk(x, prefix, rec, tpl)

    def _func(self, n, prefix, rec, dependent):
        self._loc(n)
        f = Func()
        f.node = n; f.id = n["id"]; f.name = n.get("name"); f.kind = n["kind"]
        f.cls = rec; f.qname = prefix + (f.name or "?")
        f.tparams = self._targs(n)
        f.params = [x for x in n.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        f.body = next((x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"), None)
        f.inits = [x for x in n.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]
        f.type = qt(n["type"]) if "type" in n else ""
        f.dtype = n.get("type", {}).get("qualType", "")
        f.is_method = n["kind"] != "FunctionDecl"
        f.static = n.get("storageClass") == "static"
        f.virtual = n.get("virtual", False)
        f.const = f.type.endswith("const")
        f.line = self.curline; f.file = self.curfile
        self.decls[n["id"]] = n
        self.fn_decl_ctx[n["id"]] = f
        if "previousDecl" in n:
            self.prev[n["id"]] = n["previousDecl"]
        n["_dep"] = dependent
        n["_ctx"] = n.get("parentDeclContextId")
        self.funcs.append(f)

    def _canon(self, i):
        while i in self.prev:
            i = self.prev[i]
        return i

    def _link(self):
        # out-of-line methods: recover the class from the first declaration
        for f in self.funcs:
            c = self._canon(f.id)
            g = self.fn_decl_ctx.get(c)
            if g is not None and g is not f:
                f.cls = f.cls or g.cls
                f.qname = g.qname
                f.static = f.static or g.static
                f.virtual = f.virtual or g.virtual
                f.is_method = g.is_method
                if g.node["_dep"]: f.node["_dep"] = True     # out-of-line pattern of a template member
            elif f.cls is None and f.node.get("_ctx") in self.rec_by_id:
                f.cls = self.rec_by_id[f.node["_ctx"]]
        self.defs = {}
        for f in self.funcs:
            if f.body is not None or (f.kind == "CXXConstructorDecl" and f.inits):
                self.defs[self._canon(f.id)] = f
        for f in self.funcs:
            if f.cls is not None:
                f.cls.methods.append(f)
        # default arguments live on the declaration that introduced them
        for f in self.funcs:
            c = self._canon(f.id)
            for i, p in enumerate(f.params):
                if p.get("inner"):
                    e = [x for x in p["inner"] if x.get("kind") and not x["kind"].endswith("Attr")]
                    if e:
                        self.default_args.setdefault((c, i), e[-1])

    def definition(self, decl_id):
        c = self._canon(decl_id)
        return self.defs.get(c)

    def decl(self, decl_id):
        return self.fn_decl_ctx.get(self._canon(decl_id)) or self.fn_decl_ctx.get(decl_id)

    def find(self, qname, sig=None, targs=None, instantiated=True):
        """All definitions with that qualified name (template arguments not part of it)."""
        out = []
        for f in self.funcs:
            if f.qname != qname:
                continue
            if f.body is None and not f.inits:
                continue
            if f.node["_dep"]:
                continue
            if sig is not None and sig not in f.type and sig not in f.dtype:
                continue
            if targs is not None and f.tparams != list(targs):
                continue
            out.append(f)
        return out

    def find_method(self, clsname, name, ptypes_from=None):
        pass
