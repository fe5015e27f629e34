"""Generates known_findings.json. Entries with status 'fixed' suppress nothing."""
import json, os
F = []
def fixed(prop, commit, what):
    F.append(dict(property=prop, key=None, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
def known(prop, key, what):
    F.append(dict(property=prop, key=key, status="open", what=what))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings_list.py")).read())
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(fn, "w") as f:
    json.dump({"findings": F}, f, indent=1); f.write("\n")
