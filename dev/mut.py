#!/usr/bin/env python3
"""Development aid, not a check: applies edits (planted bugs and behaviour-preserving refactorings)
to a scratch copy of /repo and reports what the checks say.  mut.py [P01 ...] [-k name]"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BASE = os.environ.get("VF_BASE", "/repo")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
k = None
if "-k" in sys.argv: k = sys.argv[sys.argv.index("-k") + 1]; args.remove(k)
jobs = []
for f in sorted(glob.glob(V + "/dev/muts/*.py")):
    pid = os.path.basename(f)[:-3]
    if args and pid not in args: continue
    sp = importlib.util.spec_from_file_location(pid, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for e in m.M:
        if k and k not in e[1]: continue
        for p in (e[3] if len(e) > 3 else [pid]): jobs.append((p, e[0], e[1], e[2]))
def run(j):
    pid, kind, name, edits = j
    td = tempfile.mkdtemp(prefix="vf_mut_")
    try:
        subprocess.run(["rsync", "-a", "--exclude", "_build", "--exclude", ".git", BASE + "/", td + "/"]) if shutil.which("rsync") else subprocess.run("cd " + BASE + " && tar cf - --exclude=_build --exclude=.git . | tar xf - -C " + td, shell=True)
        for file, old, new in edits:
            p = td + "/" + file; s = open(p).read()
            if old not in s: return (pid, kind, name, "EDIT-FAILED", "%s: %r" % (file, old[:60]))
            s = s.replace(old, new, 1) if not isinstance(new, tuple) else s.replace(old, new[0])
            open(p, "w").write(s)
        env = dict(os.environ, VF_REPO=td, VF_EVID=td + "/ev")
        r = subprocess.run([sys.executable, V + "/sa/check.py", pid], capture_output=True, text=True, env=env)
        out = r.stdout.strip().splitlines()
        exp = 1 if kind == "bug" else 0
        return (pid, kind, name, "ok" if r.returncode == exp else "WRONG rc=%d" % r.returncode, ("\n      ".join(x[:260] for x in out[:4]) + (r.stderr[-600:] if r.returncode not in (0, 1) else "")).replace(td, ""))
    finally: shutil.rmtree(td, ignore_errors=True)
with ThreadPoolExecutor(6) as ex:
    bad = 0
    for r in ex.map(run, jobs):
        v = "-v" in sys.argv
        if r[3] != "ok": bad += 1
        print("%-4s %-8s %-34s %s" % r[:4] + ("\n      " + r[4] if v or r[3] != "ok" else ""))
    print("%d jobs, %d wrong" % (len(jobs), bad))
