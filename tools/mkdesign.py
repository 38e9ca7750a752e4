"""mkdesign.py: DESIGN.md = tools/design_head.md + per-property tables (from contracts and evidence) + tools/design_tail.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts import props as P, ALL
out = open(os.path.join(V, "tools/design_head.md")).read()
titles = dict((json.loads(l)["id"], json.loads(l)) for l in open(os.path.join(V, "properties.jsonl")))
cs = ALL()
base = json.load(open(os.path.join(V, "contracts/baseline.json")))
out += "## 3. The properties, one by one\n\nLists of functions name the contracts of the property (prefix `pycalendar.` dropped); `bounded` ones carry their bound.\n\n"
notes = {}
k = None
for l in open(os.path.join(V, "tools/design_props.md")):
    if l.startswith("## "):
        k = l[3:].strip(); notes[k] = ""
    elif k:
        notes[k] += l
for p in sorted(P.PROPS):
    out += "### %s %s\n\n" % (p, titles[p]["title"])
    out += P.PROPS[p]["explanation"] + "\n\n"
    mine = [c for c in cs if p in c.props]
    pr = sorted(set(c.name.replace("pycalendar.", "") for c in mine if not c.bounded and base.get(c.name, {}).get("status") == "proved"))
    bd = sorted(set("%s (%s)" % (c.name.replace("pycalendar.", ""), c.bounded) for c in mine if c.bounded))
    out += "* proved, unbounded (%d): %s\n" % (len(pr), ", ".join("`%s`" % x for x in pr))
    if bd:
        out += "* proved within a bound (%d): %s\n" % (len(bd), "; ".join("`%s`" % x for x in bd))
    if P.PROPS[p]["harness"]:
        out += "* run on the real code besides (bounded): `jy/%s`\n" % P.PROPS[p]["harness"]
    out += notes.get(p, "").rstrip() + "\n\n"
out += open(os.path.join(V, "tools/design_tail.md")).read()
sd = os.path.join(V, "seeded")
out += "\n## 6. Planted bugs\n\n`tools/tryseed.sh ID...` applies one to /repo, runs the stable tests, the demonstration and the property's check, and undoes it.  All of these pass the tests; the last column is what the check said (result recorded in `tools/seed_results.json`).\n\n| id | what it breaks | needs | check |\n|---|---|---|---|\n"
res = {}
rp = os.path.join(V, "tools/seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (s, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(s, ""))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
print(len(out))
