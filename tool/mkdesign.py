"""Writes DESIGN.md from tool/design/{head,tail}.md, the properties, the manifest table, the last evidence and seeded/."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
g = {"__file__": here + "/tool/mkmanifest.py"}
exec(open("tool/mkmanifest.py").read().split("PIDS =")[0], g)
T, NA = g["T"], g["NA"]
o = [open("tool/design/head.md").read(), "## Properties\n"]
for l in open("properties.jsonl"):
    d = json.loads(l); p = d["id"]
    o.append("### %s %s\n" % (p, d["title"]))
    if p in T:
        e = json.load(open("evidence/%s.json" % p))
        o.append("*%s.* %s\n" % (T[p][0][0].upper() + T[p][0][1:], e["coverage"]["explanation"]))
        o.append("Reach: %s Last run: %s; %.0f s.\n" % (T[p][1], ", ".join("%d %s" % (v, k) for k, v in e["coverage"]["counts"].items()), e["wall_s"]))
        if e["assumptions"]: o.append("Assumes: %s.\n" % "; ".join(e["assumptions"]))
    else: o.append("Not claimed: %s\n" % NA.get(p, "No check has been built for it."))
F = json.load(open("known_findings.json"))["findings"]
fl = "\n".join("* %s `%s` %s" % (f["property"], f["commit"], f["what"]) for f in F if f["status"] == "fixed")
kl = "\n".join("* %s %s (`%s`)" % (f["property"], f["what"], f["key"]) for f in F if f["status"] == "open")
t = open("tool/design/tail.md").read().replace(" (FIXED_LIST).", ":\n\n" + fl + ("\n\nRecorded and not repaired:\n\n" + kl if kl else ""))
o.append(t)
o.append("| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
caught = json.load(open("dev/caught.json")) if os.path.exists("dev/caught.json") else {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    o.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], caught.get(i, "not run")))
open("DESIGN.md", "w").write("\n".join(o) + "\n")
