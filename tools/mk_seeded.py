"""Write /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (one dict per planted bug).

Each definition: ID = dict(property=, file=, edits=[(old, new), ...] or {file: [(old, new)]}, needs=, breaks=, demo=python source)
The demo is python run with /opt/venv/bin/python in /repo: exit 0 when the behaviour is right.
"""
import json
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).parent
OUT = HERE.parent / "seeded"
DEMO = """#!/bin/bash
# exit 0 when the property holds for the demonstrated case, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def main():
    defs = {}
    for f in sorted((HERE / "seeds").glob("*.py")):
        ns = {}
        exec(compile(f.read_text(), str(f), "exec"), ns)  # noqa: S102
        defs.update(ns["BUGS"])
    only = sys.argv[1:]
    for bid, d in defs.items():
        if only and bid not in only:
            continue
        with tempfile.TemporaryDirectory() as tmp:
            tmp = pathlib.Path(tmp)
            subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", str(tmp / "w"), "HEAD"], check=True)
            try:
                edits = d["edits"] if isinstance(d["edits"], dict) else {d["file"]: d["edits"]}
                for file, pairs in edits.items():
                    p = tmp / "w" / file
                    s = p.read_text()
                    for old, new in pairs:
                        assert s.count(old) == 1, f"{bid}: {s.count(old)} matches of {old!r} in {file}"
                        s = s.replace(old, new)
                    p.write_text(s)
                diff = subprocess.run(["git", "-C", str(tmp / "w"), "diff"], check=True, capture_output=True, text=True).stdout
            finally:
                subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", str(tmp / "w")], check=True)
        dst = OUT / bid
        if dst.exists():
            shutil.rmtree(dst)
        dst.mkdir(parents=True)
        (dst / "patch.diff").write_text(diff)
        (dst / "demo.py").write_text(d["demo"].lstrip("\n"))
        (dst / "demo.sh").write_text(DEMO)
        (dst / "demo.sh").chmod(0o755)
        (dst / "meta.json").write_text(json.dumps({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, indent=1) + "\n")
        print("wrote", bid)


main()
