import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "meta"))
from props import COMMON, P  # noqa: E402

NA = []
done = [p for p in P if (V / "checks" / f"{p['id'].lower()}.py").exists()]
with open(V / "properties.jsonl", "w") as f:
    for p in done:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[], observe_at=p["observe"], hook_needed=None),
        )) + "\n")
cmd = "/opt/venv/bin/python /verif/check.py {} --tier {}"
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import pypsa, linopy, highspy, scipy\"",
    checks=[dict(property=p["id"], quick_cmd=cmd.format(p["id"], "quick"), thorough_cmd=cmd.format(p["id"], "thorough"),
                 technique=p["technique"], level="exploration", level_note=COMMON + p["note"]) for p in done],
    not_applicable=NA,
    notes="No hooks in /repo: every monitor observes public outputs, callbacks or files.",
)
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
import jsonschema

jsonschema.validate(man, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
sch = json.loads(Path("/root/.vp/PROPERTIES.schema.json").read_text())
for line in open(V / "properties.jsonl"):
    jsonschema.validate(json.loads(line), sch)
print(len(done), "properties")
