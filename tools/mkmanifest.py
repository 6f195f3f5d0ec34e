"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
TECH = "bounded symbolic execution of the real Python source, path conditions and assertions decided by Z3"
NOTE = ("Within the stated bounds every path of the real code is explored and the assertion decided for all values "
        "of the path; every path is validated on the uninstrumented code. {b}. Outside: {o}. Trusted: the symbolic "
        "runtime in symx/, Z3, the reference model in the harness.")
NA = {}
checks, na = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if (ROOT / "harness" / (p.lower() + ".py")).exists():
        h = importlib.import_module("harness." + p.lower())
        checks.append(dict(property=p, quick_cmd=f"python3 run.py {p} quick", thorough_cmd=f"python3 run.py {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=TECH, level="model_checking",
                           level_note=NOTE.format(b="Quick: " + h.BOUNDS["quick"], o=getattr(h, "OUTSIDE", "") or "longer inputs")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
