#!/usr/bin/env python3
"""DESIGN.md from tools/design/*.md, the rules in pbt/props and the results in tools/seed_results.json."""
import glob, json, os, re

V = "/verif"
rd = lambda p: open(os.path.join(V, p)).read()
out = [rd("tools/design/head.md"), rd("tools/design/props.md")]
out.append("### Sub-properties\n\nCases: at the quick and at the thorough tier, at most.\n\n")
for f in sorted(glob.glob(V + "/pbt/props/C*.cpp")):
    cid, s = os.path.basename(f)[:3], open(f).read()
    for m in re.finditer(r"^(PROP|FINDING)\((\w+),((?:[^{]|\n)*?)\)\s*\{", s, re.M):
        body = re.sub(r"\s+", " ", m.group(3)).strip()
        n = re.match(r"(\d+), (\d+), ", body)
        rule = re.sub(r'"\s*"', "", body[n.end():] if n else body).strip('"')
        if rule.startswith("RULE"):
            rule = "Random operation histories on buffers of %s against a model." % rule[6:-2].replace('"', "")
        cases = "%s / %s" % n.groups() if n else "probe of a known finding"
        out.append("* **%s/%s** (%s): %s\n" % (cid, m.group(2), cases, rule))
out.append("\n")
out.append(rd("tools/design/tail.md"))
res = json.loads(rd("tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out.append("\nWhich checks catch which change (only its own property's check is listed unless others were tried):\n\n")
for sid in sorted(os.listdir(V + "/seeded")):
    meta = json.loads(rd("seeded/%s/meta.json" % sid))
    e = res.get(sid)
    t = "; ".join("%s (%s)" % (c, ", ".join(k["by"])) if k["caught"] else "not by " + c for c, k in sorted(e["checks"].items())) if e else "see its property"
    out.append("* `%s`: %s - %s\n" % (sid, meta["what_it_breaks"], t))
open(V + "/DESIGN.md", "w").write("".join(out).replace("@MISSED@\n", ""))
