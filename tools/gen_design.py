"""rewrites the two tables of DESIGN.md that come from other files: planted bugs (seeded/*/meta.json) and measurements (evidence/)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def part(t, name, body):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, body, name), t, flags=re.S)
t = open(V + "/DESIGN.md").read()
s = "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
m = "| id | states | transitions | seconds |\n|---|---|---|---|\n"
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]; f = V + "/evidence/%s.json" % i
    if os.path.exists(f):
        e = json.load(open(f)); c = e["coverage"]
        if e["tier"] == "quick": m += "| %s | %d | %d | %d |\n" % (i, c["states"], c["transitions"], round(e["wall_s"]))
t = part(t, "seeded", s.rstrip()); t = part(t, "measured", m.rstrip())
open(V + "/DESIGN.md", "w").write(t)
