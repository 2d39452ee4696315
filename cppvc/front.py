"""Front end: clang's own parse of /repo's current sources (JSON AST), nothing rewritten by hand.
Every run parses the files again; the only thing added to a translation unit is a namespace around the
#include of the file, which lets clang dump exactly the project's own declarations."""
import os, json, subprocess, re, concurrent.futures as cf
from vlib.build import REPO, scratch, src_files

class FrontError(Exception):
    pass

NS = "VERIF_NS"

def system_includes(files):
    inc = set()
    for f in files:
        for l in open(f, errors="replace"):
            m = re.match(r"\s*#\s*include\s*<([^>]+)>", l)
            if m and not os.path.exists(os.path.join(REPO, "src", m.group(1))):
                inc.add(m.group(1))
    return sorted(inc)

def all_headers():
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".h", ".hpp", ".cpp")) and "/tests" not in root: out.append(os.path.join(root, f))
    return out

def _dump(cpp, incs, cc="clang++-18"):
    d = os.path.join(scratch(), "tu"); os.makedirs(d, exist_ok=True)
    tu = os.path.join(d, os.path.basename(cpp).replace(".cpp", "") + "_%d.cpp" % (hash(cpp) & 0xFFFFF))
    with open(tu, "w") as f:
        for i in incs: f.write("#include <%s>\n" % i)
        f.write("namespace %s {\n#include \"%s\"\n}\n" % (NS, cpp))
    r = subprocess.run([cc, "-std=c++17", "-w", "-I" + os.path.join(REPO, "src"), "-I" + os.path.dirname(cpp), "-fsyntax-only",
                        "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + NS, tu], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontError("clang cannot parse %s: %s" % (cpp, r.stderr.decode(errors="replace")[:1500]))
    txt = r.stdout.decode("utf-8", "surrogateescape")
    dec = json.JSONDecoder(); pos = 0; out = []
    while True:
        m = re.compile(r"\s*").match(txt, pos); pos = m.end()
        if pos >= len(txt): break
        if txt.startswith("Dumping", pos):
            pos = txt.index("\n", pos) + 1; continue
        o, pos = dec.raw_decode(txt, pos); out.append(o)
    return out

def subst_parms(n):
    """replaced template parameters: only the value is kept"""
    if n.get("kind") == "SubstNonTypeTemplateParmExpr": n["inner"] = [c for c in n["inner"] if c.get("kind") != "NonTypeTemplateParmDecl"]
    for c in n.get("inner", []): subst_parms(c)

class Func:
    def __init__(f, qname, node, tu):
        f.qname = qname; f.node = node; f.tu = tu
        f.params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        f.body = next((c for c in node.get("inner", []) if c["kind"] == "CompoundStmt"), None)
        f.inits = [c for c in node.get("inner", []) if c["kind"] == "CXXCtorInitializer"]
        f.type = node.get("type", {}).get("qualType", "")
        f.static = node.get("storageClass") == "static"
    def __repr__(f): return "<%s>" % f.qname

class Program:
    """functions by qualified name, records by name, globals per translation unit"""
    def __init__(p, only=None):
        files = src_files()
        if only: files = [f for f in files if os.path.basename(f) in only]
        incs = system_includes(all_headers())
        p.funcs = {}; p.records = {}; p.byid = {}; p.globals = {}; p.typedefs = {}; p.enums = {}; p.anon = {}
        p.declfile = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for f, dumps in zip(files, ex.map(lambda x: _dump(x, incs), files)):
                p.load(os.path.relpath(f, os.path.join(REPO, "src")), dumps)
    def load(p, tu, dumps):
        for d in dumps:
            p.walk(d, [], tu)
    def walk(p, n, ctx, tu):
        k = n.get("kind")
        if k == "FunctionTemplateDecl": subst_parms(n)
        if "id" in n: p.byid[tu, n["id"]] = n
        if k == "NamespaceDecl":
            c = ctx if n.get("name") == NS else ctx + [n.get("name", "")]
            for x in n.get("inner", []): p.walk(x, c, tu)
        elif k in ("LinkageSpecDecl", "ExportDecl"):
            for x in n.get("inner", []): p.walk(x, ctx, tu)
        elif k in ("CXXRecordDecl",):
            name = "::".join(ctx + [n.get("name", "anon_%s_%s" % (tu, n["id"]))])
            if n.get("completeDefinition") or any(x["kind"] == "FieldDecl" for x in n.get("inner", [])):
                p.anon[tu, n["id"]] = name
                fields = [(x["name"], x["type"], x) for x in n.get("inner", []) if x["kind"] == "FieldDecl"]
                if name not in p.records or fields: p.records[name] = fields
            for x in n.get("inner", []): p.walk(x, ctx + [n.get("name", "anon")], tu)
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            p.typedefs["::".join(ctx + [n["name"]])] = n["type"]
            # typedef struct {...} X;
            for x in n.get("inner", []):
                od = x.get("ownedTagDecl") or (x.get("decl") if x.get("kind") == "RecordType" else None)
                if od and (tu, od["id"]) in p.anon:
                    p.records[n["name"]] = p.records[p.anon[tu, od["id"]]]
                for y in x.get("inner", []) if isinstance(x.get("inner"), list) else []:
                    d2 = y.get("decl")
                    if d2 and (tu, d2["id"]) in p.anon: p.records[n["name"]] = p.records[p.anon[tu, d2["id"]]]
        elif k == "EnumDecl":
            v = -1
            for x in n.get("inner", []):
                if x["kind"] != "EnumConstantDecl": continue
                val = None
                def find(z):
                    nonlocal val
                    if "value" in z and val is None: val = int(z["value"])
                    for y in z.get("inner", []): find(y)
                find(x)
                v = val if val is not None else v + 1
                p.enums[tu, x["id"]] = v
                p.enums["::".join(ctx + [n.get("name", "")] + [x["name"]])] = v
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            if ctx == [] and n.get("parentDeclContextId"):
                par = p.byid.get((tu, n["parentDeclContextId"]))
                if par is not None and par["kind"] == "CXXRecordDecl": ctx = [par.get("name", "anon")]
            q = "::".join(ctx + [n.get("name", "?")])
            targs = [x for x in n.get("inner", []) if x["kind"] == "TemplateArgument"]
            if targs: q += "<%s>" % ",".join(str(x.get("value", x.get("type", {}).get("qualType", "?"))) for x in targs)
            f = Func(q, n, tu)
            n["_q"] = q
            if f.body is not None:
                l = p.funcs.setdefault(q, [])
                if not any(g.tu == tu and g.type == f.type for g in l) and not any((not g.static) and (not f.static) and g.type == f.type and "::" in q and False for g in l):
                    l.append(f)
        elif k == "FunctionTemplateDecl":
            for x in n.get("inner", []):
                if x["kind"] in ("FunctionDecl", "CXXMethodDecl"): p.walk(x, ctx, tu)
        elif k == "VarDecl":
            p.globals.setdefault(tu, {})[n["id"]] = n
            p.globals.setdefault("byname", {}).setdefault(n["name"], []).append((tu, n))
        elif k in ("UsingDirectiveDecl", "EmptyDecl"): pass
    def fn(p, q, nparams=None):
        l = p.funcs.get(q, [])
        if nparams is not None: l = [f for f in l if len(f.params) == nparams]
        return l[0] if l else None
