"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, pathlib
H = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines()]
notes = json.loads((H / "tools" / "notes.json").read_text()) if (H / "tools" / "notes.json").exists() else {}
checks, na = [], []
for p in props:
    pid = p["id"]
    if (H / "props" / f"{pid.lower()}.py").exists():
        n = notes.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
                           technique=n.get("technique", "property-based testing (Hypothesis) against a plain-numpy reference model"),
                           level="exploration",
                           level_note=n.get("note", "Random structured search with shrinking; shows no counterexample among the generated cases. Trusts numpy/scipy/pandas as the oracle's arithmetic and the harness model of patches.")))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
(H / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
    notes="Pure-Python harness; imports dascore from /repo's working tree (no byte-code cache is used for it). Hypothesis is vendored in /verif/vendor. No hooks in /repo. Evidence goes to /verif/evidence, shrunk failures to /verif/replays; replay one with ./check replay FILE."), indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
