"""Compile-fail witnesses: translation units of static assertions over the tree's own inline functions and
tables.  The compiler's front end decides each assertion while type-checking; no object code is made or run."""
import os, re, subprocess, tempfile
import facts
from facts import Broken, VERIF, REPO

BASE = ["-fsyntax-only", "-w", "-fimplicit-constexpr", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=300000", "-fconstexpr-depth=4096",
        "-fmax-errors=0", "-DNDEBUG", "-DFMT_HEADER_ONLY", "-DDOTTORRENT_USE_OPENSSL", "-I" + VERIF + "/stubs", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO]
UNDECIDED = ("call to non-", "reinterpret_cast", "operation count exceeds", "evaluation depth exceeds", "inline assembly", "is not usable in a constant expression",
             "used before its definition", "static in", "not a literal type", "does not have a constexpr", "cannot be used in a constant", "result of 'operator new'", "thread_local", "conversion from pointer type 'void*'", "pointer_tag", "fatal error")

# what the evaluation itself can complain about
EVAL = re.compile(r"array subscript value .* outside the bounds|dereferencing a null pointer|involving a null pointer|overflow in constant expression|is not a constant expression|outside its lifetime|after deallocation|'constexpr' (loop iteration|evaluation)")


def judge(g, detail):
    txt = "\n".join(g)
    if "<throw-expression>" in txt: return ("throws", detail)
    # one loop with hundreds of thousands of rounds over inputs of a few hundred bytes
    if "loop iteration count exceeds" in txt: return ("ub", "a loop over these inputs does not end: " + detail)
    return ("undecided" if any(u in txt for u in UNDECIDED) else "ub", detail)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30)); resource.setrlimit(resource.RLIMIT_CPU, (800, 800))


def compile(text, std="c++23", extra=()):
    """-> dict label -> ("ok" | "false" | "ub" | "undecided", detail); labels are the 'VF:<label>' messages."""
    labels = re.findall(r'"VF:([\w.\-]+)', text)
    with tempfile.TemporaryDirectory(prefix="vf_wit_") as td:
        src = td + "/witness.cpp"; open(src, "w").write(text)
        lines = text.splitlines()
        r = subprocess.run(["g++", "-std=" + std] + BASE + list(extra) + [src], capture_output=True, text=True, env=dict(os.environ, LC_ALL="C"), preexec_fn=limits)
    if r.returncode < 0 or re.search(r"out of memory|virtual memory exhausted|Killed|internal compiler error|CPU time limit", r.stderr): raise Broken("the compiler gave up on the witness: %s" % r.stderr[-300:])
    res = {l: ("ok", "") for l in labels}
    if r.returncode == 0: return res
    # split into error groups
    groups = []
    for l in r.stderr.splitlines():
        if re.search(r": (fatal )?error: ", l) and not (groups and "non-constant condition" in groups[-1][0] and "static assertion" not in l and ("witness.cpp" not in l and any("expansion of" in x for x in groups[-1]) or EVAL.search(l))): groups.append([l])
        elif groups: groups[-1].append(l)
    for g in groups:
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", g[0])
        if not m: continue
        file, line, msg = m.group(1), int(m.group(2)), m.group(3)
        lab = None
        if os.path.basename(file) == "witness.cpp":
            mm = re.search(r'VF:([\w.\-]+)', msg) or re.search(r'"VF:([\w.\-]+)', lines[line - 1])
            if mm: lab = mm.group(1)
        detail = "\n".join(g[:12])
        if lab is None or "static assertion failed" not in msg and "non-constant condition" not in msg:
            if lab and EVAL.search(msg):
                if res[lab][0] == "ok": res[lab] = judge(g, detail)
                continue
            raise Broken("witness does not compile: " + g[0][:400])
        if "static assertion failed" in msg: res[lab] = ("false", g[0])
        else: res[lab] = judge(g, detail)
    return res


def apply(rep, text, what, where, std="c++23", extra=()):
    """Reports failed assertions as violations; returns number decided."""
    try: res = compile(text, std, extra)
    except Broken:
        if std == "c++20": raise
        res = compile(text, "c++20", extra)
    und = [l for l, (s, _) in res.items() if s == "undecided"]
    if und and std == "c++23":
        try:
            for l, v in compile(text, "c++20", extra).items():
                if l in und and v[0] != "undecided": res[l] = v
        except Broken: pass
    und = 0
    for l, (s, d) in res.items():
        if l.startswith("must-throw-"): s = {"throws": "ok", "ok": "false"}.get(s, s)
        if s == "ok": rep.count("assertions decided", 1, "%s: %s" % (l, what.get(l, l)))
        elif s == "undecided":
            und += 1; rep.count("assertions undecided", 1, l); rep.assume("witness %s could not be evaluated by the compiler: %s" % (l, d[:300]))
        else:
            rep.count("assertions decided", 1, l)
            rep.violation("witness:" + l, where.get(l, where.get("", "include")) if isinstance(where, dict) else where,
                          "%s%s" % (what.get(l, l), "" if s == "false" else " (the evaluation has no defined result: %s)" % re.sub(r"\s+", " ", d)[:500]))
    if und and und == len(res): raise Broken("no witness could be evaluated")
    return res
