"""Writes DESIGN.md from tools/design_head.md, the check modules, properties.jsonl and seeded/*/meta.json.
(seeded/ is read here for the table only; no check reads it)"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
head, tail = open(os.path.join(HERE, "tools", "design_head.md"), encoding="utf-8").read().split("<<PROPERTIES>>")
mid, tail = tail.split("<<SEEDED>>")
notes = {}
for part in open(os.path.join(HERE, "tools", "design_props.md"), encoding="utf-8").read().split("\n## ")[1:]:
    k, body = part.split("\n", 1)
    notes[k.strip()] = body.strip()
out = [head.rstrip(), ""]
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    m = importlib.import_module(f"rtmon.checks.{p['id'].lower()}")
    out += [f"### {p['id']} {p['title']}", "", notes[p["id"]], "", f"*Workload and oracle:* {m.RULE}.", ""]
    if getattr(m, "EXHAUSTIVE", None):
        out += [f"*Enumerated completely:* {m.EXHAUSTIVE}.", ""]
    out += ["*Events the monitors must have seen for the run to count (quick):* "
            + ", ".join(f"{k} >= {v}" for k, v in m.MINIMUM.items()) + ".", "",
            f"*Why tests cannot settle it:* {p['why_tests_cant']}", ""]
out += [mid.strip(), "", "| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f, encoding="utf-8"))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
out += ["", tail.strip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
