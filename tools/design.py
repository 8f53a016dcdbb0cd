"""Writes DESIGN.md: head, one section per property (from properties.jsonl and the last evidence files), table of planted bugs, tail."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(H, f)).read()
o = [rd("tools/design_head.md").rstrip(), "", "## 2. The properties, one by one", "",
     "Statements are in `properties.jsonl`. *Decides* = what is specified and how the solver decides it, *bounds* = the domain of the quick check,",
     "*assumes* = beyond the trusted parts above, *cost* = obligations discharged / of all and wall seconds of the quick check on 8 idle cores.", ""]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    e = json.loads(rd("evidence/%s.json" % p["id"])); c = e["coverage"]
    o.append("### %s %s" % (p["id"], p["title"]))
    o.append("* decides: %s." % c["method"])
    b = c["bounds"]
    o.append("* bounds: %s." % ("; ".join("%s: %s" % kv for kv in b.items()) if isinstance(b, dict) else b))
    a = e.get("assumptions") or c.get("assumptions")
    if a:
        o.append("* assumes: %s." % "; ".join(a))
    o.append("* cost: %s/%s, %s s" % (c.get("discharged"), c.get("obligations"), round(c.get("wall_s", e.get("wall_s", 0)) or 0)))
    o.append("")
o += [rd("tools/design_tail.md").rstrip(), "", "## 6. Planted bugs and the check that catches each", "",
      "Each was written from the property text and the code, keeps all tests passing, has a demo, and was run against the check of its own property"
      " (`ENGABRA_REPO=<copy with the patch> ./check <ID>`): exit 1 and a VIOLATION line in every case below.", "",
      "| id | caught by | what breaks | needs |", "|---|---|---|---|"]
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.loads(rd("seeded/%s/meta.json" % s))
    o.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(o) + "\n")
