"""Generates properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, importlib.util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
NOT_CLAIMED = []


def prop(id, title, statement, over, q, why, files, mech, technique, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, q=" ".join(q.split()), why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()), level=level, observe=observe))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"] or [], hook_needed=None),
        )) + "\n")
na_ids = {x["property"] for x in NA}
man = dict(
    version=1,
    setup_cmd="true",
    checks=[
        dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
             evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
        for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na_ids
    ],
    not_applicable=NA,
    notes="No hooks in /repo: all checks drive the public API of the unmodified working tree. run.sh <ID> --replay <file> replays a counterexample.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(man["checks"]), "checks")
