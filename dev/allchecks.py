#!/usr/bin/env python3
"""Development aid: every check in one process; prints what each says.  allchecks.py [P01 ...]"""
import sys, os, importlib, json, io, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa"); sys.setrecursionlimit(20000)
import check
want = sys.argv[1:] or list(check.MODULES)
kf = {(k["property"], k["key"]) for k in check.known() if k["status"] == "open"}
res = {}
for p in want:
    rep = check.Report(p, "quick"); err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            getattr(importlib.import_module("rules." + check.MODULES[p]), "check_" + p)(rep)
    except check.Broken as e: err = str(e)[:300]
    except Exception as e: err = "internal %r" % e
    v = [x["message"][:160] for x in rep.viol if (p, x["key"]) not in kf]
    if v: res[p] = ["V"] + v[:1]
    elif err: res[p] = ["E", err]
print(json.dumps(res))
