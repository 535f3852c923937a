"""fills the tables of DESIGN.md: tools/design/*.md are the per-property notes"""
import json, os, glob, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V+"/tools")
from props import PROPS
s=open(V+"/tools/DESIGN.in.md").read()
ps=[]
for p in PROPS:
    i=p["id"]
    n=V+f"/tools/design/{i}.md"
    ps.append(f"### {i} {p['title']}\n\n" + (open(n).read().strip() if os.path.exists(n) else p["technique"]) + "\n\nBounds: " + p["level_note"] + ".")
bugs=[]
caught=json.load(open(V+"/tools/design/caught.json")) if os.path.exists(V+"/tools/design/caught.json") else {}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); b=d.split("/")[-2]
    bugs.append(f"- `{b}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. Caught by {caught.get(b, m['property'])}.")
fx=[]
for l in open(V+"/known-findings.txt"):
    m=re.match(r"(fixed|finding): property=(\S+) (\S+) (.*)", l)
    if m: fx.append(f"- {m[2]} ({m[1]} {m[3]}): {m[4]}.")
s=s.replace("@@PROPS@@","\n\n".join(ps)).replace("@@BUGS@@","\n".join(bugs)).replace("@@FIXES@@","\n".join(fx))
open(V+"/DESIGN.md","w").write(s)
