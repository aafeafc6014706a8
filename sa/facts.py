"""Obtains the resolved program of /repo's current tree: runs the exporter (tool/fx)
over translation units assembled from the tree, and loads the result."""
import glob, hashlib, json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")     # overridden only while developing (dev/mut.py)
CACHE = os.path.join(VERIF, ".cache")


class Broken(Exception):
    """The analysis itself cannot give an answer (error exit, neither pass nor violation)."""


def _tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for root in (REPO + "/include", REPO + "/src", VERIF + "/stubs", VERIF + "/tu"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    h.update(open(VERIF + "/tool/fx.cpp", "rb").read())
    return h.hexdigest()[:24]


def tool():
    subprocess.run(["bash", VERIF + "/tool/build.sh"], check=True)
    h = hashlib.sha256(open(VERIF + "/tool/fx.cpp", "rb").read()).hexdigest()[:16]
    return VERIF + "/tool/bin/fx-" + h


FLAGS = ["-std=c++20", "-DNDEBUG", "-DFMT_HEADER_ONLY", "-I" + VERIF + "/stubs", "-I" + REPO + "/include",
         "-I" + REPO + "/src", "-I" + REPO, "-I" + VERIF + "/tu", "-w", "-ferror-limit=0",
         "-include", "algorithm", "-include", "functional", "-include", "string", "-include", "fmt/format.h"]


def run_fx(src_text, name, defs):
    os.makedirs(CACHE, exist_ok=True)
    key = _tree_hash(REPO + src_text + name + " ".join(defs) + " ".join(FLAGS))
    out = os.path.join(CACHE, "%s-%s.json" % (name, key))
    if os.path.exists(out):
        return json.load(open(out))
    with tempfile.TemporaryDirectory(prefix="vf_fx_") as td:
        src = os.path.join(td, name + ".cpp")
        open(src, "w").write(src_text)
        tmp = os.path.join(td, "out.json")
        r = subprocess.run([tool(), "-o", tmp, "-root", REPO + "/", "-root", VERIF + "/tu/", src, "--"] + FLAGS + ["-D" + d for d in defs],
                           capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise Broken("exporter failed on %s: %s" % (name, r.stderr[-2000:]))
        j = json.load(open(tmp))
        j["diag"] = [l for l in r.stderr.splitlines() if "error:" in l]
        tmp2 = out + ".tmp%d" % os.getpid()
        json.dump(j, open(tmp2, "w"))
        os.replace(tmp2, out)
    # keep the cache small
    try:
        for f in sorted(glob.glob(CACHE + "/*.json"), key=os.path.getmtime)[:-60]: os.remove(f)
    except OSError: pass
    return j


def core():
    """Headers and sources that need none of the absent libraries, with every template used."""
    src = open(VERIF + "/tu/inst_core.cpp").read()
    return load([("core", src)], ["DOTTORRENT_USE_OPENSSL"])


def full():
    """All of src/*.cpp (OpenSSL configuration) and the template uses in tu/inst_full.cpp."""
    files = sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/src/hasher/backends/*.cpp"))
    if not files:
        raise Broken("no sources found")
    inst = open(VERIF + "/tu/inst_full.cpp").read()
    unity = "".join('#include "%s"\n' % f for f in files) + inst
    j = None
    try:
        j = run_fx(unity, "unity", ["DOTTORRENT_USE_OPENSSL"])
    except Broken:
        pass
    if j is not None and j["errors"] == 0:
        return Loader([("unity", j)])
    units = [("u_" + os.path.basename(f)[:-4], '#include "%s"\n' % f) for f in files] + [("inst_full", inst)]
    return load(units, ["DOTTORRENT_USE_OPENSSL"])


def load(units, defs):
    with ThreadPoolExecutor(8) as ex:
        js = list(ex.map(lambda u: (u[0], run_fx(u[1], u[0], defs)), units))
    for n, j in js:
        if j["errors"]:
            raise Broken("translation unit %s does not type-check: %s" % (n, "; ".join(j.get("diag", [])[:4])))
    return Loader(js)


def strip_targs(s):
    """Removes template argument lists from a qualified name (operators kept)."""
    out = []; depth = 0; i = 0
    while i < len(s):
        if s.startswith("operator", i) and depth == 0:
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|[^\w\s:]+)", s[i:])
            if m:
                out.append(m.group(0)); i += len(m.group(0)); continue
        c = s[i]
        if c == "<": depth += 1
        elif c == ">" and depth: depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return "".join(out)


class Fn:
    def __init__(self, raw, P):
        self.raw = raw; self.P = P
        self.fid = raw["fid"]; self.qn = strip_targs(raw["qn"]); self.name = raw["n"]
        self.disp = raw["disp"]; self.file = raw["file"]; self.line = raw["line"]
        self.kind = raw["kind"]; self.rec = raw.get("rec"); self.access = raw["access"]
        self.params = raw["params"]; self.ret = raw["ret"]
        self.nodes = {int(k): v for k, v in raw["nodes"].items()}
        self.vars = {int(k): v for k, v in raw["vars"].items()}
        for n in self.nodes.values():
            for k in ("qn",):
                if k in n: n[k] = strip_targs(n[k])
            for k in ("callee", "fn"):
                if k in n: n[k]["full"] = n[k]["qn"]; n[k]["qn"] = strip_targs(n[k]["qn"])
        self.blocks = {b["id"]: b for b in raw.get("blocks", [])}
        self.entry = raw.get("entry"); self.exit = raw.get("exit")
        self._par = None

    @property
    def is_lambda(self): return bool(self.raw.get("lambda"))

    @property
    def parents(self):
        if self._par is None:
            p = {}
            for i, n in self.nodes.items():
                for c in list(n.get("c", [])) + list(n.get("args", [])) + ([n["obj"]] if "obj" in n else []):
                    if c is not None and c >= 0 and c != i: p.setdefault(c, i)
            self._par = p
        return self._par

    def loc(self, nid=None):
        l = self.nodes[nid]["l"] if nid is not None and nid in self.nodes else self.line
        return "%s:%d" % (self.file.replace(REPO + "/", ""), l)

    def sig(self):
        return "%s(%s)" % (self.disp, ", ".join(self.P.types[self.vars[p]["t"]]["s"] for p in self.params))

    def __repr__(self): return "<%s %s:%d>" % (self.disp, os.path.basename(self.file), self.line)


class Loader:
    """The program: functions, records, enums, globals, types (several units merged)."""
    def __init__(self, units):
        self.types = []; self.funcs = {}; self.records = []; self.enums = {}; self.globals = []
        self.units = [n for n, _ in units]
        keyed = {}; alias = {}
        off = 0
        for ui, (n, j) in enumerate(units):
            base = ui * 10_000_000; toff = len(self.types)
            if len(units) > 1: j = _renumber(j, base, toff)
            self.types.extend(j["types"])
            for f in j["funcs"]:
                fn = Fn(f, self)
                key = (fn.sig(), fn.file, fn.line)
                if key in keyed and fn.name != "operator()":
                    alias[fn.fid] = keyed[key]; continue
                if "blocks" in f or not f.get("defaulted"): keyed[key] = fn.fid
                self.funcs[fn.fid] = fn
            for r in j["records"]: r["tu"] = n
            self.records.extend(j["records"])
            for e in j["enums"]: self.enums.setdefault(e["qn"], e)
            self.globals.extend(j["globals"])
        self.alias = alias
        # resolve declarations seen only as prototypes in one unit to bodies in another
        self.by_sig = {}
        for f in self.funcs.values():
            self.by_sig.setdefault((f.qn, tuple(self.types[t]["s"] for t in f.raw["pt"]), f.raw.get("const", False)), f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.raw.get("ovr", []): self.overriders.setdefault(o, []).append(f)

    def const_text(self, qn):
        """The text of a constant that is initialised with one string literal, or None."""
        if not hasattr(self, "_texts"):
            self._texts = {}
            for g in self.globals:
                if not (g.get("const") or g.get("constexpr")) or g.get("init") is None: continue
                i = g["init"]
                for _ in range(12):
                    n = g["nodes"].get(str(i), g["nodes"].get(i))
                    if n is None: break
                    if n["k"] == "StringLiteral": self._texts[g["qn"]] = n.get("str"); break
                    c = n.get("c") or n.get("args") or []
                    if len(c) == 2 and n["k"] == "UserDefinedLiteral": c = c[:1]
                    if len(c) != 1 and n.get("k") != "CXXConstructExpr" or not c: break
                    i = c[0]
        return self._texts.get(qn)

    def fn_of(self, callee):
        fid = callee.get("fid")
        fid = self.alias.get(fid, fid)
        f = self.funcs.get(fid)
        if f is None:
            f = self.by_sig.get((callee["qn"], tuple(self.types[t]["s"] for t in callee.get("pt", [])), callee.get("const", False)))
        return f

    def find(self, qn, **kw):
        r = [f for f in self.funcs.values() if f.qn == qn]
        for k, v in kw.items(): r = [f for f in r if f.raw.get(k) == v]
        return r

    def methods(self, rec):
        return [f for f in self.funcs.values() if f.rec == rec and not f.is_lambda]

    def record(self, qn):
        return [r for r in self.records if r["qn"] == qn]

    def ts(self, t): return self.types[t]["s"] if t is not None and t >= 0 else ""


_IDK = {"fid", "d", "clsid", "call", "hold", "decomp", "ext", "exc", "id", "lv"}
_TK = {"t", "ret", "rt", "ct", "at", "base", "u", "pointee", "elem"}


def _renumber(j, b, t):
    def w(x, key=None):
        if isinstance(x, dict):
            r = {}
            for k, v in x.items():
                if k == "vars" and isinstance(v, dict): r[k] = {str(int(a) + b): w(c) for a, c in v.items()}
                elif k == "vars" and isinstance(v, list): r[k] = [a + b for a in v]
                elif k in ("params", "ovr", "spec", "bind"): r[k] = [a + b for a in v]
                elif k == "pt": r[k] = [a + t for a in v]
                elif k in _IDK and isinstance(v, int) and not isinstance(v, bool) and not (k == "id" and "e" in x and "s" in x): r[k] = v + b
                elif k in _TK and isinstance(v, int) and v >= 0: r[k] = v + t
                else: r[k] = w(v, k)
            return r
        if isinstance(x, list): return [w(y) for y in x]
        return x
    return w(j)
