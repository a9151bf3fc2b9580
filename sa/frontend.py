"""Frontend: clang AST (through the plugin in plugin/astdump.cpp) -> Node trees.

A `Program` is the set of translation units of one executable of the repository.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis has no answer (missing anchor, unparsable source)."""


def plugin_path():
    """Build the AST dumper if it is not there yet; return its path."""
    src = os.path.join(HERE, "plugin", "astdump.cpp")
    tag = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "astdump-%s.so" % tag)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["clang++", "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-w",
           "-I/usr/lib/llvm-18/include", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build AST dumper: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


class Node:
    __slots__ = ("kind", "inner", "name", "type", "op", "value", "ref", "line", "file",
                 "nid", "raw", "extra", "off", "id")

    def __repr__(self):
        return "<%s %s %s:%s>" % (self.kind, self.name or self.op or self.value or "", self.file, self.line)

    def walk(self):
        yield self
        for c in self.inner:
            if c is not None:
                for x in c.walk():
                    yield x


_KEEP = ("castKind", "isArrow", "isPostfix", "ctorType", "isArray", "isArrayAsWritten", "hasElse",
         "hasInit", "hasVar", "storageClass", "init", "isImplicit", "mangledName",
         "previousDecl", "parentDeclContextId", "completeDefinition", "tagUsed", "bases",
         "explicitlyDefaulted", "isList", "anyInit", "hasCond", "initializer", "argType",
         "constexpr", "nominatedNamespace", "list", "tryAlt")


class TU:
    def __init__(self, path):
        self.path = path
        self.roots = []
        self.byid = {}


class _Loader:
    def __init__(self, tu, repo):
        self.tu = tu
        self.file = None
        self.line = None
        self.repo = repo
        self.counter = 0

    def loc(self, d):
        """update the delta-coded location state; return (file,line,offset) or None"""
        if not d:
            return None
        if "spellingLoc" in d or "expansionLoc" in d:
            self.loc(d.get("spellingLoc"))
            return self.loc(d.get("expansionLoc"))
        if "file" in d:
            f = d["file"]
            self.file = os.path.normpath(f)
        if "line" in d:
            self.line = d["line"]
        if "offset" not in d:
            return None
        return (self.file, self.line, d.get("offset"))

    def conv(self, j):
        if not j or "kind" not in j:
            return None
        n = Node()
        n.kind = j["kind"]
        n.id = j.get("id")
        self.counter += 1
        n.nid = self.counter
        l = self.loc(j.get("loc")) if "loc" in j else None
        r = j.get("range")
        b = None
        if r:
            b = self.loc(r.get("begin"))
            self.loc(r.get("end"))
        at = b or l or (self.file, self.line, None)
        n.file, n.line, n.off = at
        n.name = j.get("name")
        t = j.get("type")
        n.type = (t.get("desugaredQualType") or t.get("qualType")) if t else None
        n.op = j.get("opcode")
        n.value = j.get("value")
        rd = j.get("referencedDecl")
        n.ref = rd if rd else None
        if "referencedMemberDecl" in j:
            n.ref = {"id": j["referencedMemberDecl"], "name": j.get("name")}
        n.extra = {k: j[k] for k in _KEEP if k in j}
        if t:
            n.extra["qualType"] = t.get("qualType")
        if "conversionFunc" in j:
            n.extra["conv"] = j["conversionFunc"]
        if "decl" in j and isinstance(j["decl"], dict):
            n.extra["decl"] = j["decl"]
        if "anyInit" in j:
            n.extra["anyInit"] = j["anyInit"]
        n.inner = [self.conv(c) for c in j.get("inner", [])]
        if n.id and n.id not in self.tu.byid:
            self.tu.byid[n.id] = n
        elif n.id and n.kind.endswith("Decl") and not self.tu.byid[n.id].kind.endswith("Decl"):
            self.tu.byid[n.id] = n
        return n


def parse_tu(src, extra_flags=(), repo=None):
    repo = repo or REPO
    plug = plugin_path()
    path = os.path.join(repo, src)
    if not os.path.exists(path):
        raise AnalysisError("source file vanished: " + src)
    fd, out = tempfile.mkstemp(suffix=".json", prefix="sadump")
    os.close(fd)
    try:
        last = ""
        for std in ("-std=c++11", "-std=gnu++17"):
            cmd = ["clang++", std, "-w", "-ferror-limit=0", "-I" + os.path.join(repo, "include")] + list(extra_flags) + \
                  ["-fsyntax-only", "-fplugin=" + plug, "-Xclang", "-plugin-arg-sadump", "-Xclang", out, path]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                break
            last = r.stderr
        else:
            raise AnalysisError("clang cannot parse %s:\n%s" % (src, last[-3000:]))
        txt = open(out).read()
    finally:
        os.unlink(out)
    tu = TU(src)
    ld = _Loader(tu, repo)
    for doc in txt.split("\x1e"):
        doc = doc.strip()
        if not doc:
            continue
        j = json.loads(doc)
        if j.get("kind") == "EOT":
            continue
        ld.file = None
        ld.line = None
        n = ld.conv(j)
        if n is not None:
            tu.roots.append(n)
    return tu


class Func:
    __slots__ = ("node", "tu", "qname", "mangled", "cls", "params", "body", "inits", "file", "line", "is_ctor", "static", "rtype")

    def __repr__(self):
        return "<Func %s>" % self.qname


class Program:
    def __init__(self, name, sources, extra_flags=(), repo=None):
        self.name = name
        self.repo = repo or REPO
        self.sources = sources
        plugin_path()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda s: parse_tu(s, extra_flags, self.repo), sources))
        self.funcs = {}       # mangled -> Func with body
        self.byname = {}      # qualified name -> [Func]
        self.decl_mangled = {}  # (tu index, id) -> mangled
        self.records = {}     # class name -> list of (fieldname, type)
        self.record_nodes = {}
        self.globals = {}     # (tu idx, id) -> qualified name
        self.gconst = {}      # (tu, decl id) -> initializer of a constant at namespace or class scope
        self.enums = {}       # (tu, decl id) -> value of an enumerator
        self.gnodes = {}      # qualified name -> VarDecl node with init (if any)
        self.ctors = {}       # class -> list of Func
        self.bases = {}
        for i, tu in enumerate(self.tus):
            self._scan(i, tu)

    def _scan(self, ti, tu):
        ctxname = {}

        def visit(n, prefix, cls):
            k = n.kind
            if k == "NamespaceDecl" or k == "LinkageSpecDecl":
                p = prefix + ([n.name] if n.name else [])
                ctxname[n.id] = (p, None)
                for c in n.inner:
                    if c is not None:
                        visit(c, p, None)
            elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                p = prefix + [n.name or "anon%d" % n.nid]
                ctxname[n.id] = (p, "::".join(p))
                if n.extra.get("completeDefinition"):
                    q = "::".join(p)
                    fields = []
                    for c in n.inner:
                        if c is not None and c.kind == "FieldDecl":
                            fields.append((c.name, c.type))
                    self.records[q] = fields
                    self.record_nodes[q] = n
                    self.bases[q] = [b.get("type", {}).get("qualType") for b in n.extra.get("bases", [])]
                for c in n.inner:
                    if c is not None:
                        visit(c, p, "::".join(p))
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                par = n.extra.get("parentDeclContextId")
                pp, cc = prefix, cls
                if par and par in ctxname:
                    pp, cc = ctxname[par]
                elif n.extra.get("previousDecl") and n.extra["previousDecl"] in self._declctx:
                    pp, cc = self._declctx[n.extra["previousDecl"]]
                self._declctx[n.id] = (pp, cc)
                q = "::".join(pp + [n.name or "?"])
                m = n.extra.get("mangledName") or ("%s|%s|%s" % (q, n.type, ti if n.extra.get("storageClass") == "static" else ""))
                if n.extra.get("storageClass") == "static" and not cc:
                    m = "static%d:%s" % (ti, m)
                self.decl_mangled[(ti, n.id)] = m
                body = None
                for c in n.inner:
                    if c is not None and c.kind in ("CompoundStmt", "CXXTryStmt"):
                        body = c
                if body is not None and m not in self.funcs:
                    f = Func()
                    f.node, f.tu, f.qname, f.mangled, f.cls = n, ti, q, m, cc
                    f.params = [c for c in n.inner if c is not None and c.kind == "ParmVarDecl"]
                    f.body = body
                    f.inits = [c for c in n.inner if c is not None and c.kind == "CXXCtorInitializer"]
                    f.file, f.line = n.file, n.line
                    f.is_ctor = k == "CXXConstructorDecl"
                    f.static = n.extra.get("storageClass") == "static"
                    f.rtype = (n.type or "").split("(")[0].strip()
                    self.funcs[m] = f
                    self.byname.setdefault(q, []).append(f)
                    if f.is_ctor:
                        self.ctors.setdefault(cc, []).append(f)
                for c in n.inner:
                    if c is not None and c.kind == "CompoundStmt":
                        for x in c.walk():
                            if x.kind == "VarDecl" and x.extra.get("storageClass") == "static":
                                pass
            elif k == "VarDecl":
                q = "::".join(prefix + [n.name or "?"])
                par = n.extra.get("parentDeclContextId")
                if par and par in ctxname:
                    q = "::".join(ctxname[par][0] + [n.name or "?"])
                if n.extra.get("previousDecl") and (ti, n.extra["previousDecl"]) in self.globals:
                    q = self.globals[(ti, n.extra["previousDecl"])]
                self.globals[(ti, n.id)] = q
                init = [c for c in n.inner if c is not None and not c.kind.endswith(("Attr", "Comment"))]
                if init and "[" not in (n.type or "") and "*" not in (n.type or "") and "&" not in (n.type or "") and \
                        (n.extra.get("constexpr") or re.search(r"\bconst\b", n.type or "")):
                    self.gconst[(ti, n.id)] = init[-1]
                    self.gconst.setdefault(q, (ti, init[-1]))
                if q not in self.gnodes or n.inner:
                    self.gnodes[q] = n
            elif k == "FunctionTemplateDecl":
                for c in n.inner:
                    if c is not None:
                        visit(c, prefix, cls)

        self._declctx = {}
        for r in tu.roots:
            visit(r, [], None)
        for n in list(tu.byid.values()):
            if n.kind == "EnumDecl":
                self._enumerators(ti, n)

    def _enumerators(self, ti, n):
        """values of the enumerators of one enumeration (None: not understood)"""
        last = -1
        for c in n.inner:
            if c is None or c.kind != "EnumConstantDecl":
                continue
            v = None if last is None else last + 1
            if c.inner:
                v = None
                for x in c.walk():
                    if x.kind == "ConstantExpr" and x.value is not None:
                        try:
                            v = int(x.value)
                        except (TypeError, ValueError):
                            v = None
                        break
            last = v
            if v is not None:
                self.enums[(ti, c.id)] = v

    def func(self, qname, required=True):
        l = self.byname.get(qname, [])
        if not l:
            if required:
                raise AnalysisError("function %s not found in %s" % (qname, self.name))
            return None
        return l[0]

    def resolve(self, ti, ref):
        """mangled name of a referenced function decl"""
        return self.decl_mangled.get((ti, ref["id"]))


PROGRAMS = {
    "gen": ["bin/gen.cpp"],
    "para": ["src/linear_gkr/verifier_fast_para_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp",
             "src/linear_gkr/main_fast_para_track.cpp", "src/linear_gkr/polynomial.cpp", "src/linear_gkr/prime_field.cpp"],
    "linear": ["src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/prover_fast_track.cpp",
               "src/linear_gkr/main_fast_track.cpp", "src/linear_gkr/polynomial.cpp", "src/linear_gkr/prime_field.cpp"],
    "bclogc": ["src/traditional_gkr/verifier_traditional.cpp", "src/traditional_gkr/prover_clogc.cpp",
               "src/traditional_gkr/bclogc.cpp", "src/linear_gkr/polynomial.cpp", "src/linear_gkr/prime_field.cpp"],
    "bc_clogc": ["src/traditional_gkr/verifier_bc_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp",
                 "src/traditional_gkr/bc_clogc.cpp", "src/linear_gkr/polynomial.cpp", "src/linear_gkr/prime_field.cpp"],
}

if __name__ == "__main__":
    import time
    t = time.time()
    p = Program("linear", PROGRAMS["linear"])
    print(time.time() - t)
    for f in p.funcs.values():
        print(f.qname, f.cls, f.file, f.line)
    print(p.records.keys())
    print(p.globals.values())
