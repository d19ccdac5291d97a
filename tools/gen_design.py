#!/usr/bin/env python3
# Writes DESIGN.md from design_head.md, design_props.json, design_tail.md, the harnesses, KNOWN_FINDINGS,
# costs.json (quick run times) and caught.json (planted changes and what reported them).
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
rd = lambda p: open(os.path.join(root, p)).read()
js = lambda p: json.loads(rd(p)) if os.path.exists(os.path.join(root, p)) else {}
oracle, costs, caught = js("tools/design_props.json"), js("tools/costs.json"), js("tools/caught.json")
harn, bounds = {}, {}
for f in sorted(glob.glob(os.path.join(root, "harness/h/*.go"))):
    s = open(f).read()
    doc = dict(re.findall(r"^// (H_C\d\d_\w+): (.*)$", s, re.M))
    parts = re.split(r"^func ", s, flags=re.M)
    for p in parts[1:]:
        n = re.match(r"H_(C\d\d)_(\w+)\(", p)
        i = n.group(1) if n else (os.path.basename(f)[:3].upper() if re.match(r"c\d\d", os.path.basename(f)) else "")
        for name, q, t in re.findall(r'v\.Bound\("([^"]+)", (\d+), (\d+)\)', p):
            bounds.setdefault(i, {}).setdefault("%s %s → %s" % (name, q, t), 1)
        for name, q in re.findall(r'large\("([^"]+)", (\d+)\)', p):
            bounds.setdefault(i, {}).setdefault("%s in large cases %s → %d" % (name, q, 3*int(q)), 1)
        if n:
            harn.setdefault(n.group(1), []).append((n.group(2), doc.get("H_%s_%s" % (n.group(1), n.group(2)), "")))
out = [rd("tools/design_head.md"), "\n## Properties\n\n`quick → thorough` bounds; symbolic values have all 64 bits and symbolic bytes are arbitrary unless said otherwise.\n"]
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line); i = p["id"]
    out.append("\n### %s %s\n\n%s\n" % (i, p["title"], oracle.get(i, "")))
    if p.get("why_tests_cant"): out.append("Beyond the tests: %s\n" % p["why_tests_cant"])
    for n, d in harn.get(i, []): out.append("* `%s`: %s" % (n, d))
    out.append("\nBounds: %s.\n" % "; ".join(bounds.get(i, {"none": 1})))
    if i in costs: out.append("Quick run on the unchanged tree: %s.\n" % costs[i])
out.append("\n## Genuine defects found and repaired\n\nEach was reported by a check with a replay on the original tree, and is reported again when the fix is reverted.\n")
out += ["* " + l[len("fixed: property="):] for l in rd("KNOWN_FINDINGS").splitlines() if l.startswith("fixed:")]
out.append("\nNothing is left as a known finding.\n")
out.append("\n" + rd("tools/design_tail.md"))
out.append("\n## Planted changes\n\n`seeded/` counts towards the final check; `planted_other/` are changes to lines that only exist since a repair. Each line: change, check that reports it (or **missed**), what it needs.\n")
for k in sorted(caught):
    c = caught[k]; out.append("* `%s` %s: %s" % (k, c["by"] or "**missed**", c["needs"]))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
