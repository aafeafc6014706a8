#!/usr/bin/env python3
"""Development aid: generates /verif/seeded/<id>/ from dev/seeds/*.py and verifies each entry
(patch builds, stable tests pass, demo 0 without and nonzero with the patch, which checks catch it).
mkseed.py [--verify] [ids...]"""
import glob, importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
%s
'''
STD = '''g++ -std=c++20 -O1 -w -DDOTTORRENT_USE_OPENSSL -I include "$here/demo.cpp" %s -o "$t/demo" -pthread -lcrypto || exit 1
timeout 60 "$t/demo"'''
STUB = '''g++ -std=c++20 -O1 -w %s -DDOTTORRENT_USE_OPENSSL -I include -I "$here/stub" -include functional -include memory -include algorithm -include gsl-lite/gsl-lite.hpp "$here/demo.cpp" %s -o "$t/demo" -pthread -lcrypto -lfmt -Wl,--unresolved-symbols=ignore-all || exit 1
cd "$t" && timeout 100 "$t/demo"'''
assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "dirty /repo"
for f in sorted(glob.glob(V + "/dev/seeds/*.py")):
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.S:
        if ids and s["id"] not in ids: continue
        d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        try:
            for file, old, new in s["edits"]:
                p = R + "/" + file; t = open(p).read(); n = 0
                if isinstance(old, tuple): old, n = old
                parts = t.split(old)
                assert len(parts) > n + 1, (s["id"], file, old)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]); open(p, "w").write(t)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            open(d + "/demo.sh", "w").write(DEMO % (s["sh"] if "sh" in s else STUB % (s.get("flags", ""), s.get("src", "")) if s.get("stub") else STD % s.get("src", ""))); os.chmod(d + "/demo.sh", 0o755)
            if s.get("stub"): sh("rm -rf %s/stub && cp -r %s/stubs %s/stub" % (d, V, d))
            if "demo" in s: open(d + "/demo.cpp", "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if "--verify" in sys.argv:
                b = sh("bash /opt/vp/build.sh"); ok = b.returncode == 0
                sh("bash /opt/vp/test.sh /tmp/vf_out.json"); o = open("/tmp/vf_out.json").read()
                res = json.loads(o)
                dm = sh("bash %s/demo.sh" % d, cwd=R)
                allp = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if "--all" in sys.argv else [s["property"]]
                from concurrent.futures import ThreadPoolExecutor
                with ThreadPoolExecutor(8) as ex: hits = [p for p, x in zip(allp, ex.map(lambda p: sh("VF_EVID=/tmp/vf_ev python3 %s/sa/check.py %s" % (V, p)).returncode, allp)) if x == 1]
                cf = V + "/dev/caught.json"; cj = json.load(open(cf)) if os.path.exists(cf) else {}
                cj[s["id"]] = ", ".join(hits) or "missed"; json.dump(cj, open(cf, "w"), indent=1, sort_keys=True)
                sh("git -C %s checkout -- ." % R)
                sh("bash /opt/vp/build.sh")
                dm0 = sh("bash %s/demo.sh" % d, cwd=R)
                print("%-14s build=%s tests=%s demo: clean=%d bug=%d  caught by %s" % (s["id"], ok, {k: (len(v) if isinstance(v, list) else v) for k, v in res.items()} if isinstance(res, dict) else len(res), dm0.returncode, dm.returncode, hits), flush=True)
                if not ok: print(b.stdout[-1500:])
                if dm0.returncode: print(dm0.stdout[-500:], dm0.stderr[-1500:])
        finally: sh("git -C %s checkout -- ." % R)
