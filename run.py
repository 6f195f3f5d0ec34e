#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide one property on /repo's current source
   run.py --replay FILE         run one recorded violation against the real code (exit 1: it fails)
   run.py ID --case NAME ...    only the named cases (development)"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAU_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python"
SITE = ["/opt/venv/lib/python3.12/site-packages"]

if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("SYMX_RUN") is None:
    env = dict(os.environ, SYMX_RUN="1", PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("PYTHONHASHSEED", "0")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from symx import core, explore, harness, instrument, rt   # noqa: E402


def note(s):
    print(s, flush=True)


def load(prop):
    native, inst, sources = instrument.load_worlds(REPO, extra_paths=SITE)
    sys.excepthook = sys.__excepthook__        # mau.cli installs another one
    if "mau" not in native or "mau.parsers.document_parser" not in native:
        raise ImportError("mau.parsers.document_parser cannot be imported")
    hn, hi, _ = instrument.load_worlds(HERE, package="harness")

    rt.WORLD_MODULES.update(inst)
    rt.WORLD_MODULES.update(hi)
    for m, mod in native.items():
        sys.modules[m] = mod
    return native, inst, hn, hi, sources


def make_cases(prop, tier, hn, hi):
    name = "harness." + prop.lower()
    return pair(hn[name], hi[name], tier)


def pair(mn, mi, tier):
    cn, ci = mn.cases(tier), mi.cases(tier)
    out = []
    for a, b in zip(cn, ci, strict=True):
        out.append(explore.Case(a[0], (b[1], a[1]), **a[2]))
    assert len({c.name for c in out}) == len(out), "duplicate case names"
    return out


def do_replay(path, collect=False):
    if collect:
        d = json.loads(path)
    else:
        with open(path) as f:
            d = json.load(f)
    import importlib
    for p in SITE:
        if p not in sys.path:
            sys.path.append(p)
    sys.path.insert(0, REPO)
    import signal
    signal.signal(signal.SIGALRM, explore._alarm)
    mods = {}
    for dp, dirs, files in os.walk(os.path.join(REPO, "mau")):
        if "__pycache__" in dp:
            continue
        rel = os.path.relpath(dp, REPO).replace(os.sep, ".")
        for fn in files:
            if fn.endswith(".py") and fn not in ("__main__.py", "test_helpers.py"):
                n = rel if fn == "__init__.py" else rel + "." + fn[:-3]
                try:
                    mods[n] = importlib.import_module(n)
                except ImportError:
                    pass
    hm = importlib.import_module("harness." + d["property"].lower())
    for name, fn, params in hm.cases(d["tier"]):
        if name == d["case"]:
            break
    else:
        note("replay: no such case")
        return 2
    if collect:
        S = harness.Native(d["values"], params)
        S.collecting = True
        try:
            fn(harness.Mods(mods), S)
        except harness.Collected as e:
            sys.stdout.write(str(e))
        harness.Scratch.drop()
        return 0
    verdict, label, detail, _ = explore.run_native(harness.Mods(mods), fn, d["values"], params, limit=60,
                                                   again=lambda: other_seeds(d))
    harness.Scratch.drop()
    note(f"replay: {verdict} {label or ''} {detail or ''}"[:1500])
    note(f"inputs: {json.dumps(d['values'])[:1500]}")
    return 1 if verdict == "fail" else 0


def other_seeds(d):
    """What the inputs give in processes with other seeds of hash()."""
    out = []
    for i in range(0, 12, 6):
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--collect", json.dumps(d)], text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=str(i + j))) for j in range(6)]
        out += [p.communicate()[0] for p in ps]
    return out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return do_replay(args[1])
    if args and args[0] == "--collect":
        return do_replay(args[1], True)
    only = None
    if "--case" in args:
        i = args.index("--case")
        only = args[i + 1:]
        args = args[:i]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    native, inst, hn, hi, sources = load(prop)
    hmod = hn["harness." + prop.lower()]
    cases = make_cases(prop, tier, hn, hi)
    if only is not None:
        cases = [c for c in cases if any(o in c.name for o in only)]
    budget = float(os.environ.get("SYMX_BUDGET", getattr(hmod, "BUDGET", {}).get(tier, 60 if tier == "quick" else 780)))
    jobs = int(os.environ.get("SYMX_JOBS", os.cpu_count() or 4))
    keep = bool(os.environ.get("SYMX_KEEP"))
    explore.AGAIN[0] = lambda case, values: other_seeds(dict(property=prop, tier=tier, case=case, values=values))
    r = explore.explore(harness.Mods(inst), harness.Mods(native), cases, budget, jobs, seed, stop_first=not keep)
    rdir = os.path.join(HERE, "replays")
    if only is None and os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, f))
    # ---- violations: replay each against the real code in a process of its own
    findings = [f for f in known_findings() if f["property"] == prop]
    confirmed, listed, unconfirmed = [], {}, []
    seen = set()
    for v in r["violations"]:
        key = (v["case"], v["label"], (v["detail"] or "")[:80] if v["label"].startswith("exception") else "")
        if key in seen and not keep:
            continue
        seen.add(key)
        kf = next((f for f in findings if f["case"] == v["case"] and f["label"] == v["label"] and
                   all(v["values"].get(k) == x for k, x in f["values"].items())), None)
        path = explore.replay_file(os.path.join(HERE, "replays"), prop, v, tier, seed)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], capture_output=True,
                           text=True, timeout=120)
        if p.returncode == 1:
            if kf:
                listed[kf["id"]] = kf
            else:
                confirmed.append((v, path))
        else:
            unconfirmed.append((v, path, p.stdout + p.stderr))
    wall = time.monotonic() - t0
    st = r["stats"]
    nspur = len(r["spurious"])
    ndiv = len(r["diverged"])
    cov = dict(
        states=r["paths"], transitions=r["decisions"], traces_validated_against_impl=r["validated"],
        samples=[dict(case=c, inputs=s) for c, s in r["samples"][:40]],
        exhaustive=bool(r["complete"]) and not (confirmed or nspur or ndiv or unconfirmed),
        bounds=getattr(hmod, "BOUNDS", {}).get(tier, getattr(hmod, "BOUNDS", {}).get("quick", "")),
        outside=getattr(hmod, "OUTSIDE", ""),
        functions_encoded=sorted(r["funcs"]), functions_encoded_count=len(r["funcs"]),
        modules_encoded=len(sources),
        queries=st.get("queries", 0), solver_time_s=round(st.get("ztime", 0.0), 3),
        solver_unknown=st.get("unknown", 0), assertions=r["checks"], assertions_by_query=st.get("asserts", 0),
        infeasible_paths=r["infeasible"], incomplete=r["incomplete"], diverged=ndiv, not_reproduced=nspur,
        concretised_external_calls=r["ext"], cases=r["cases"],
        witnesses={k: v for k, v in list(r["reached"].items())[:60]},
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(hmod, "ASSUMPTIONS", []) + [
                  "the instrumentation and the symbolic runtime (verif/symx) represent Python faithfully; every path is "
                  "run again on the uninstrumented code with a model of its path condition and compared",
                  "Z3 answers are correct"],
              wall_s=round(wall, 2), violations=len(confirmed))
    if only is None:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    note(f"{prop} {tier}: {r['paths']} paths, {r['decisions']} decisions, {r['validated']} validated on the real code, "
         f"{r['checks']} assertions, {st.get('queries', 0)} queries, {st.get('ztime', 0):.1f} s solver, "
         f"{wall:.1f} s wall, complete={r['complete']}")
    if os.environ.get("SYMX_VERBOSE"):
        for c in r["cases"]:
            note(f"  case {c}")
        for k in sorted(r["reached"]):
            note(f"  reached {k}: {json.dumps(r['reached'][k])[:100]}")
    for kf in listed.values():
        note(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for v, path in confirmed:
        note(f"  {v['case']}: {v['label']} {v['detail'] or ''}"[:700])
        note(f"  inputs {json.dumps(v['values'])[:500]}")
        note(f"VIOLATION property={prop} replay={path}")
    if confirmed:
        return 1
    bad = 0
    for e in r["errors"]:
        note("ERROR " + e)
    for v, path, out in unconfirmed:
        note(f"NOT-CONFIRMED in a fresh process: {v} {path} {out[:500]}")
    for d in r["diverged"][:5]:
        note(f"DIVERGED {json.dumps(d, default=str)[:1500]}")
    for d in r["spurious"][:5]:
        note(f"NOT-REPRODUCED {json.dumps(d, default=str)[:1500]}")
    # A path whose counterexample the real code does not show, or whose two runs differ, decides nothing:
    # it counts as unexplored (exhaustive is false then).  Many of them mean the encoding is broken.
    if (nspur + ndiv + len(unconfirmed)) > max(5, 0.2 * r["paths"]) or not r["validated"]:
        bad = 2
    need = getattr(hmod, "WITNESSES", {}).get(tier, ())
    if only is None and r["complete"]:
        for wname in need:
            if wname not in r["reached"]:
                note(f"WARNING never reached: {wname}")
    if not r["complete"]:
        note(f"INCOMPLETE {prop}: {r['incomplete']} " +
             str([(c['name'], c['left']) for c in r["cases"] if not c["done"]][:20]))
    return bad


if __name__ == "__main__":
    try:
        code = main()
    finally:
        harness.Scratch.drop()
    sys.exit(code)
