"""Assembles DESIGN.md (see tools/design_head.md). Uses the evidence of the last quick runs for bounds and cost."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_src
R = lambda *p: open(os.path.join(ROOT, *p)).read()
res = json.loads(R("tools", "seeded_results.json"))
seeds = {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
known = json.loads(R("known_findings.json"))["findings"]
out = [R("tools", "design_head.md")]
for p in props_src.P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Decided by:* %s.\n" % p["technique"])
    out.append("*Enumerated, and the oracle:* %s\n" % " ".join((ast.get_docstring(ast.parse(R("checks", i.lower() + ".py"))) or "").split()))
    ev = os.path.join(ROOT, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        if e["tier"] == "quick":
            out.append("*Bounds (quick):* %s; about %s states, %s transitions, %s executions in %d s on 8 cores.\n" % (
                "; ".join("%s: %s" % (k.replace("_", " "), v if not isinstance(v, list) else ", ".join(map(str, v))) for k, v in c["bounds"].items()),
                c["states"], c["transitions"], c["traces_validated_against_impl"], max(1, round(e["wall_s"]))))
    out.append("*Why tests cannot settle it:* %s\n" % p["why"])
    for k in known:
        if k["property"] == i and k.get("status") == "open":
            out.append("*Open finding:* %s\n" % k["what"])
    if i in seeds:
        out.append("*Planted bugs:* " + "; ".join("`%s` (%s; needs %s): %s" % (
            n, m["what_it_breaks"].rstrip("."), m["needs"], res.get(n, "not run")) for n, m in seeds[i]) + ".\n")
out.append("## Findings\n")
out.append("Defects of flee the checks found. The repaired ones have their own `fix:` commit in /repo; reverting it makes the check fail again.\n")
for k in known:
    if k.get("status") == "fixed":
        w = k["what"]
        out.append("* %s `%s`: %s" % (k["property"], k["commit"], w.split(k["commit"], 1)[-1].strip()))
    else:
        out.append("* %s (open): %s" % (k["property"], k["what"]))
out.append("")
out.append(R("tools", "design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
