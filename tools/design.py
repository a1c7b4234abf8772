"""DESIGN.md = tools/DESIGN.tmpl.md with the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.tmpl.md").read()
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
miss = json.load(open(V + "/tools/missed.json"))
late = json.load(open(V + "/tools/strengthened.json"))
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(p))
    d = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), "missed" if i in miss else d["property"] + (" (once strengthened)" if i in late else "")))
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@MUT@@", open(V + "/tools/mutation.md").read().strip())
open(V + "/DESIGN.md", "w").write(t)
