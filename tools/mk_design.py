"""Write DESIGN.md: hand-written frame (tools/design_frame.md, tools/design_notes.json) plus what the check modules say about themselves."""
import importlib
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / "vendor"))
sys.path.insert(0, str(HERE / "tools"))

frame = (HERE / "tools/design_frame.md").read_text()
notes = json.loads((HERE / "tools/design_notes.json").read_text())
findings = [x for x in (HERE / "known_findings.txt").read_text().splitlines() if x.startswith(("fixed:", "known:"))]
out = []
for line in (HERE / "properties.jsonl").read_text().splitlines():
    prop = json.loads(line)
    pid = prop["id"]
    out.append(f"### {pid} {prop['title']}\n")
    path = HERE / f"props/{pid.lower()}.py"
    if not path.exists():
        out.append(notes.get(pid, "No check yet; listed under not_applicable until it exists.") + "\n")
        continue
    mod = importlib.import_module(f"props.{pid.lower()}")
    out.append(f"{mod.__doc__.strip()}\n")
    out.append(f"*Generated and judged.* {mod.RULE}\n")
    for fac in mod.FACETS:
        out.append(f"- facet `{fac.name}` ({fac.quick} cases quick): {(fac.check.__doc__ or '').strip().splitlines()[0] if fac.check.__doc__ else ''}")
    out.append("")
    if getattr(mod, "ASSUMPTIONS", None):
        out.append("*Taken as given (what is deliberately not judged).*\n")
        out += [f"- {x}" for x in mod.ASSUMPTIONS]
        out.append("")
    if pid in notes:
        out.append(notes[pid] + "\n")
    mine = [x for x in findings if f"property={pid} " in x]
    if mine:
        out.append("*Defects found on the original tree.*\n")
        for x in mine:
            kind, rest = x.split(":", 1)
            rest = rest.replace(f"property={pid} ", "").strip()
            out.append(f"- {kind}: {rest}")
        out.append("")
seeds = []
for d in sorted((HERE / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    seeds.append(f"| {d.parent.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {notes.get('seeded', {}).get(d.parent.name, m['property'])} |")
table = "| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeds)
(HERE / "DESIGN.md").write_text(frame.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDED@@", table))
