"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/bug_results.txt (log of try_bugs.sh)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log, res, cur = open(root + "/tools/bug_results.txt").read(), {}, None
for l in log.splitlines():
    m = re.match(r"=== (\S+) ", l)
    if m:
        cur = m.group(1)
        res[cur] = "missed"
    m = re.search(r"VIOLATION property=(\S+) replay=\S*?/%s-(\S+)-\d+\.json" % r"\S+?", l)
    if l.startswith("VIOLATION") and cur:
        b = os.path.basename(l.split("replay=")[1]).rsplit("-", 1)[0]
        res[cur] = b.split("-", 1)[1]
rows = ["| bug | property | needs | caught by class |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i, m = f.split("/")[-2], json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "?")))
s = open(root + "/DESIGN.md").read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "<!-- bugs -->\n<!-- end -->")
s = re.sub(r"<!-- bugs -->\n.*?<!-- end -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
print(sum(1 for i in res if res[i] != "missed"), "caught of", len(res), [i for i in res if res[i] == "missed"], [r for r in rows if r.endswith("| ? |")])
