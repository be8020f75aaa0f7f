#!/usr/bin/env python3
"""rewrite the generated parts of DESIGN.md (the property list and the table of planted bugs)"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.registry import CLAIMS, NOT_APPLICABLE
VN = "gated value graphs + global value numbering against a reference program"


def properties():
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        i = d["id"]
        if i not in CLAIMS:
            yield f"* **{i} {d['title']}** — *not applicable*: {NOT_APPLICABLE[i]}"
            continue
        t = CLAIMS[i]["technique"]
        if t.startswith(VN):
            rest = t[len(VN):].strip(" ;,")
            t = "value numbering (1.1)" + (", " + rest if rest else "")
        yield f"* **{i} {d['title']}** — {t}. Scope and bounds: {CLAIMS[i]['note']}."


def seeds():
    yield "| planted bug | property | what it breaks | needs |"
    yield "|---|---|---|---|"
    s = os.path.join(ROOT, "seeded")
    for n in sorted(os.listdir(s)):
        m = json.load(open(os.path.join(s, n, "meta.json")))
        yield "| " + " | ".join([n, m["property"], m["what_it_breaks"], m["needs"]]).replace("\n", " ") + " |"


p = os.path.join(ROOT, "DESIGN.md")
text = open(p).read()
for name, f in (("properties", properties), ("seeds", seeds)):
    text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(f()) + "\n" + m.group(2), text, flags=re.S)
open(p, "w").write(text)
