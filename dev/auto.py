#!/usr/bin/env python3
"""Development aid, not a check: mechanical one-token edits of one file; lists those no check objects to.
auto.py BASE FILE 'P01 P02 ...' [from-line to-line]"""
import os, re, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base, file, props = sys.argv[1:4]
lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 10**9)
L = open(base + "/" + file).read().split("\n")
OPS = [(r"(?<![<>=!+\-*/&|^-])<(?![<=])(?=\s)", "<="), (r"(?<=\s)>(?![>=])(?=\s)", ">="), (r"<=(?!>)", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&(?=\s)", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"--(?=\w|\))", "++"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=[\w)])\+(?=[\w(])", "-"), (r"(?<=[\w)])-(?=[\w(])", "+"),
       (r"\+=", "-="), (r"-=", "+="), (r"(?<=\s)\*(?=\s)", "+"), (r"(?<=\s)/(?=\s)", "*"), (r"(?<=\s)%(?=\s)", "/"), (r"<<(?=\s*\d)", ">>"), (r">>(?=\s*\d)", "<<"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"),
       (r"\bif \(!", "if ("), (r"\bif \((?!!|auto|const)", "if (!"), (r"\bwhile \(!", "while ("), (r"\bnotify_all\b", "notify_one"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
       (r"\bfront\b", "back"), (r"\bbegin\(\)", "end()"), (r"\bpush_back\b", "push_front"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bunique_lock\b", "shared_lock"), (r"\bfirst\b", "second"), (r"\bother\.", "this->"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bstd::move\((\w+)\)", r"\1"), (r"\b(0x[0-9a-fA-F]+)\b", r"(\1 - 1)")]
J = []
incomment = False
for i, l in enumerate(L):
    s = l.strip()
    if "/*" in s and "*/" not in s: incomment = True
    if incomment:
        if "*/" in s: incomment = False
        continue
    if not (lo <= i + 1 <= hi) or not s or s.startswith(("//", "#", "*", "using", "template", "namespace", "static_assert", "///", "friend", "public", "private")): continue
    code = l.split("//")[0]
    for rx, new in OPS:
        for m in re.finditer(rx, code):
            n = code[:m.start()] + m.expand(new) + code[m.end():]
            if n != code: J.append((i, l, n))
    if s.endswith(";") and not s.startswith(("return", "}", "class", "struct", "enum", "explicit", "virtual", "friend", "typedef")) and ("(" in s or "=" in s) and not re.match(r"(constexpr |inline |static |const |auto |std::\w+(<.*>)? \w+;|\w+ \w+;)", s): J.append((i, l, "        ;"))
    if s.startswith("return ") and s.endswith(";") and i: pass
def run(j):
    i, old, new = j
    td = tempfile.mkdtemp(prefix="vf_auto_")
    try:
        subprocess.run("cp -a %s/. %s/" % (base, td), shell=True)
        M = list(L); M[i] = new
        open(td + "/" + file, "w").write("\n".join(M))
        r = subprocess.run([sys.executable, V + "/dev/allchecks.py"] + props.split(), capture_output=True, text=True, env=dict(os.environ, VF_REPO=td, VF_EVID=td + "/ev"), timeout=900)
        try: d = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception: return j, {"?": ["E", r.stderr[-200:]]}
        return j, d
    except subprocess.TimeoutExpired: return j, {"?": ["E", "timeout"]}
    finally: shutil.rmtree(td, ignore_errors=True)
c = {"caught": 0, "broken": 0, "survived": 0}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
    for (i, old, new), d in ex.map(run, J):
        v = [p for p in d if d[p][0] == "V"]; e = [p for p in d if d[p][0] == "E"]
        k = "caught" if v else "broken" if e else "survived"
        c[k] += 1
        if not v: print("%s %s:%d  %s  =>  %s %s" % (k.upper(), file, i + 1, old.strip()[:110], new.strip()[:110], "" if k == "survived" else str(d[e[0]][1])[-90:].replace("\n", " ")), flush=True)
print(len(J), c)
