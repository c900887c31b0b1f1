"""Writes DESIGN.md from the property list, the check modules and the notes below."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
src = {}
for f in sorted(os.listdir(os.path.join(HERE, "vf", "props"))):
    m = re.match(r"c(\d+)\.py$", f)
    if m:
        src["C" + m.group(1)] = open(os.path.join(HERE, "vf", "props", f)).read()


def const(s, name):
    import ast

    for n in ast.parse(s).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)
    return None


def subs(s):
    return [(m[1], *re.findall(r', (\d+), (\d+), shards', m[0])[-1]) for m in re.finditer(r'Sub\("(\w+)".*', s) if re.search(r', (\d+), (\d+), shards', m[0])]


notes = open(os.path.join(HERE, "design_notes.md")).read()
head, rest = notes.split("<!-- PROPERTIES -->")
why = dict(re.findall(r"^\[(C\d\d)\] (.*)$", rest, re.M))
tail = rest.split("<!-- END -->")[1]
out = [head]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    s = src[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    out.append(f"*Generated and judged:* {const(s, 'RULE')}\n")
    out.append(f"*Oracle, and why it reaches what the tests cannot:* {why[i]} {p['why_tests_cant']}\n")
    a = const(s, "ASSUMPTIONS")
    if a:
        out.append("*Assumptions:* " + "; ".join(a) + ".\n")
    out.append("*Cases (quick / thorough):* " + ", ".join(f"{n} {q} / {t}" for n, q, t in subs(s)) + ".\n")
out.append(tail)
k = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out.append("\n### Repaired (one `fix:` commit each in /repo)\n")
for f in k:
    if f["status"] == "fixed":
        out.append("- " + f["what"])
out.append("\n### Recorded, not repaired\n")
for f in k:
    if f["status"] == "known":
        out.append(f"- {f['property']}: {f['what']}")
out.append("")
tab = os.path.join(HERE, "seeded_results.md")
if os.path.exists(tab):
    out.append("\n" + open(tab).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
