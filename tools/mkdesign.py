"""
writes /verif/DESIGN.md: the prose is in tools/design, each monitor's specification is the head of its
check, the table of planted bugs is made from seeded/*/meta.json

    python3 tools/mkdesign.py
"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

props = {p["id"]: p for p in map(json.loads, open(ROOT + "/properties.jsonl"))}
space = {}
exec(open(ROOT + "/tools/design/notes.py").read(), space)
tail = open(ROOT + "/tools/design/tail.md").read()

out = [space["HEAD"].strip(), "", "## The properties, one by one", ""]
out += [
    "Each entry: what one case is, the oracle, what counts as non-trivial (the head of the check's",
    "source, also the `rule` in its evidence file); then *reach* - why this sees what the tests",
    "can't - *bounds*, cost of the quick tier, and findings.",
    "",
]
for pid in sorted(props):
    doc = ast.get_docstring(ast.parse(open(f"{ROOT}/checks/{pid.lower()}.py").read()))
    out += [f"### {pid} {props[pid]['title']}", "", doc.strip(), "", space["notes"][pid].strip(), ""]

table = ["| planted bug | caught by | needs |", "|---|---|---|"]
for name in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open(f"{ROOT}/seeded/{name}/meta.json"))
    also = space["also"].get(name, "")
    table.append(f"| {name} | {meta['property']}{also} | {meta['needs']} |")
fixed = len(json.load(open(ROOT + "/known_findings.json")).get("fixed", []))
out += [tail.strip().replace("FIXED_COUNT", str(fixed)).replace("SEEDED_TABLE", "\n".join(table)), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
