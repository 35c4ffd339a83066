"""Load clang's JSON AST of /repo code (run on every check) and index the functions."""
import json, os, subprocess, hashlib, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

def cfg_include():
    """Build-configured headers: taken from /repo/_build when present, else from /verif/stubs/cfg."""
    inc = []
    inc += ["-I" + os.path.join(ROOT, "stubs", "cfg")]
    return inc

def include_flags(mpi=False):
    f = ["-I" + os.path.join(ROOT, "stubs"), *cfg_include(),
         "-I" + REPO + "/include", "-I" + REPO + "/src/sparsexx/include",
         "-I" + REPO + "/src/lobpcgxx/include", "-I" + REPO + "/src/macis"]
    if mpi:
        f += ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
    return f

class ExtractError(Exception):
    pass

def clang_ast(tu, filters, extra=(), mpi=False):
    """Return list of root JSON nodes of `tu` for each name filter."""
    roots = []
    for flt in filters:
        cmd = ["clang++", "-std=c++20", "-fsyntax-only", "-DNDEBUG", "-w", *include_flags(mpi), *extra,
               "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, tu]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError("clang failed on %s: %s" % (tu, r.stderr.decode()[-2000:]))
        s = r.stdout.decode()
        d = json.JSONDecoder(); i = 0; n = len(s)
        while True:
            while i < n and s[i] in " \n\r\t": i += 1
            if i >= n: break
            if s[i] != "{":      # "Dumping xxx:" lines
                i = s.index("\n", i) + 1; continue
            o, i = d.raw_decode(s, i)
            roots.append(o)
    return roots

SKIP = {"FullComment"}

class Fn:
    __slots__ = ("id", "name", "qual", "node", "params", "body", "kind", "record", "targs", "inits", "type", "loc", "is_static", "dependent")
    def __repr__(self): return "<Fn %s %s>" % (self.qual, self.type)

class Program:
    def __init__(self, roots, files_hint=None):
        self.fns = {}        # id -> Fn (with body)
        self.decls = {}      # id -> node (any named decl)
        self.byqual = {}     # qualified name -> [Fn]
        self.records = {}    # id -> node
        self.record_fields = {}   # record qual -> list of FieldDecl
        self.canon = {}      # decl id -> previousDecl id
        self.vartmpl = {}
        for r in roots: self._walk(r, [], None, False)
        # link declarations without body to definitions
        self.defs = {}
        for i, n in list(self.decls.items()):
            p = n.get("previousDecl")
            while p and p in self.decls and self.decls[p].get("previousDecl"): p = self.decls[p]["previousDecl"]
            self.canon[i] = p or i
        for f in self.fns.values():
            self.defs.setdefault(self.canon.get(f.id, f.id), f)

    def find_def(self, id_):
        f = self.fns.get(id_)
        if f: return f
        return self.defs.get(self.canon.get(id_, id_))

    def _walk(self, n, scope, record, dep):
        if not isinstance(n, dict): return
        k = n.get("kind")
        if k in SKIP or k is None: return
        if "id" in n and (k.endswith("Decl")): self.decls.setdefault(n["id"], n)
        if k == "NamespaceDecl":
            sc = scope + [n.get("name", "")]
            for c in n.get("inner", []): self._walk(c, sc, None, dep)
            return
        if k in ("ClassTemplateDecl",):
            for c in n.get("inner", []):
                if c.get("kind") == "ClassTemplateSpecializationDecl": self._walk(c, scope, record, dep)
                else: self._walk(c, scope, record, True)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
                    self._walk(c, scope, record, True if first else dep)
                    first = False
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            if k == "ClassTemplatePartialSpecializationDecl": dep = True
            targs = [c for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"]
            nm = n.get("name", "<lambda>")
            if targs: nm = nm + "<" + ",".join(targ_str(t) for t in targs) + ">"
            q = "::".join(scope + [nm])
            n["_qual"] = q
            self.records[n["id"]] = n
            if not dep:
                flds = [c for c in n.get("inner", []) if c.get("kind") == "FieldDecl"]
                if flds or q not in self.record_fields: self.record_fields[q] = flds
                if n.get("bases"): n["_bases"] = n["bases"]
            for c in n.get("inner", []): self._walk(c, scope + [nm], n, dep)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            f = Fn(); f.id = n["id"]; f.name = n.get("name", ""); f.kind = k; f.node = n
            f.targs = [targ_str(c) for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"]
            f.qual = "::".join(scope + [f.name]); f.record = record
            f.params = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            for p in f.params: self.decls[p["id"]] = p
            bodies = [c for c in n.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")]
            f.body = bodies[0] if bodies else None
            f.inits = [c for c in n.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
            f.type = n.get("type", {}).get("qualType", ""); f.is_static = n.get("storageClass") == "static"
            f.dependent = dep; f.loc = n.get("loc", {})
            if (f.body is not None or f.inits) and not dep:
                self.fns[f.id] = f
                self.byqual.setdefault(f.qual, []).append(f)
            if f.body is not None: self._walk_body(f.body, scope, dep)
            return
        if k == "LinkageSpecDecl" or k == "ExportDecl":
            for c in n.get("inner", []): self._walk(c, scope, record, dep)
            return

    def _walk_body(self, n, scope, dep):
        """Register decls (and lambda records) found inside bodies."""
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            k = x.get("kind")
            if k and k.endswith("Decl") and "id" in x: self.decls.setdefault(x["id"], x)
            if k == "CXXRecordDecl":
                x.setdefault("_qual", x.get("name", "<lambda>"))
                self.records[x["id"]] = x
                if not dep:
                    self.record_fields[x["_qual"] if "name" in x else x["id"]] = [c for c in x.get("inner", []) if c.get("kind") == "FieldDecl"]
            st.extend(x.get("inner", []))

def targ_str(t):
    if "value" in t: return str(t["value"])
    if "type" in t: return t["type"].get("qualType", "?")
    if "inner" in t and t["inner"]:
        e = t["inner"][0]
        if e.get("kind") == "ConstantExpr" and "value" in e: return e["value"]
    return "?"

def sexpr(n, ind=0, out=None):
    top = out is None
    if top: out = []
    k = n.get("kind")
    if k in SKIP: return
    d = [k or "?"]
    for key in ("name", "opcode", "value", "castKind", "isPostfix", "isArrow"):
        if key in n: d.append("%s=%s" % (key, n[key]))
    if "type" in n:
        t = n["type"]; d.append("<%s%s>" % (t.get("qualType"), (" = " + t["desugaredQualType"]) if "desugaredQualType" in t else ""))
    if "referencedDecl" in n: d.append("-> %s %s %s" % (n["referencedDecl"].get("kind"), n["referencedDecl"].get("name"), n["referencedDecl"]["id"][-6:]))
    if "referencedMemberDecl" in n: d.append("->m " + n["referencedMemberDecl"][-6:])
    if "valueCategory" in n: d.append(n["valueCategory"])
    out.append(" " * ind + " ".join(str(x) for x in d))
    for c in n.get("inner", []): sexpr(c, ind + 1, out)
    if top: return "\n".join(out)

if __name__ == "__main__":
    tu, flt, qual = sys.argv[1:4]
    pr = Program(clang_ast(tu, flt.split(","), mpi="mpi" in sys.argv[4:]))
    for q, fs in sorted(pr.byqual.items()):
        for f in fs:
            if qual == "LIST": print(q, f.targs, f.type)
            elif qual in q: print("=====", q, f.targs, f.type); print(sexpr(f.node))
