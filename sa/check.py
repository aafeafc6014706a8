#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree.
exit 0: holds; exit 1 + VIOLATION line: does not; exit 2: the analysis gave no answer."""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import facts
from facts import Broken, VERIF, REPO

MODULES = {
    "P01": "queue", "P02": "queue", "P03": "queue", "P04": "pool", "P05": "hexcode", "P06": "percent",
    "P07": "hashtab", "P08": "crypto", "P09": "crypto", "P10": "crypto", "P11": "merkle", "P12": "verify",
    "P13": "fanout", "P14": "shutdown", "P15": "races", "P16": "values", "P17": "initial", "P18": "sizes",
    "P19": "malformed", "P20": "keys", "P21": "paths", "P22": "infohash", "P23": "magnet", "P24": "announce",
    "P25": "iofail", "P26": "alloc", "P27": "algebra", "P28": "instantiate", "P31": "ending", "P32": "errors", "P33": "records", "P34": "absent", "P35": "lookup", "P36": "tree", "P37": "trackers", "P38": "digests",
}


EVID = os.environ.get("VF_EVID", VERIF + "/evidence")


class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.viol = []; self.counts = {}; self.samples = {}; self.assumptions = []; self.rules = []
        self.keys = set()

    def rule(self, text): self.rules.append(text)
    def count(self, name, n=1, sample=None):
        self.counts[name] = self.counts.get(name, 0) + n
        if sample is not None:
            l = self.samples.setdefault(name, [])
            if len(l) < 60 and sample not in l: l.append(sample)
    def need(self, name, least):
        if self.counts.get(name, 0) < least:
            raise Broken("only %d instances of '%s' found (at least %d expected): the anchors of %s are gone" % (self.counts.get(name, 0), name, least, self.pid))
    def assume(self, s):
        if s not in self.assumptions: self.assumptions.append(s)
    def violation(self, key, where, msg, trace=None):
        """key: stable identity of the construct (function and role, no line numbers)."""
        if key in self.keys: return
        self.keys.add(key)
        self.viol.append({"key": key, "where": where, "message": msg, "trace": trace or []})


def known():
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(); pid = a.property; t0 = time.time()
    rep = Report(pid, a.tier)
    mod = importlib.import_module("rules." + MODULES[pid])
    level = getattr(mod, "LEVEL", {}).get(pid, "other")
    try:
        getattr(mod, "check_" + pid)(rep)
    except Broken as e:
        if not rep.viol:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e)); return 2
        rep.assume("analysis stopped early: %s" % e)
    except Exception:
        if not rep.viol:
            traceback.print_exc(); print("ANALYSIS-ERROR property=%s internal error" % pid); return 2
        traceback.print_exc()
    kf = {k["key"]: k for k in known() if k["property"] == pid and k["status"] == "open"}
    new = [v for v in rep.viol if v["key"] not in kf]
    old = [v for v in rep.viol if v["key"] in kf]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"explanation": " ".join(rep.rules), "obligations": sum(rep.counts.values()), "counts": rep.counts, "analysed": rep.samples, "known_findings": [v["key"] for v in old]},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    ev["coverage"]["violations_found"] = new
    rp = EVID + "/%s.replay.json" % pid
    json.dump(ev, open(EVID + "/%s.json" % pid, "w"), indent=1)
    for v in old: print("KNOWN-FINDING: property=%s %s" % (pid, kf[v["key"]]["what"]))
    if new:
        json.dump({"property": pid, "violations": new}, open(rp, "w"), indent=1)
        for v in new: print("%s: %s [%s]" % (v["where"], v["message"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (pid, json.dumps(rep.counts), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
