#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here because it is easier to edit)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["generateCuts() result (row cuts and column cuts)"], hook_needed=None)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.txt")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
ids = [q["id"] for q in P]
assert len(ids) == len(set(ids))
for q in P:
    assert len(q["title"]) <= 80, q["id"]
print(len(P), "properties")
