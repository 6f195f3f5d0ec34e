"""Exploration of harness cases by worker processes, validation of every path, replay of violations."""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import core, rt
from .state import Snapshot
from .harness import Assumption, Mods, Native, NativeFail, Scratch, Symbolic


class Case:
    def __init__(self, name, fn, **params):
        self.name, self.fn, self.params = name, fn, params


class _Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise _Timeout()


def where(e):
    """The innermost frame of the code under test."""
    out = ""
    for f in traceback.extract_tb(e.__traceback__):
        if "/mau/" in f.filename:
            out = f"{f.filename.split('/mau/', 1)[1]}:{f.name}"
    return out


AGAIN = [None]        # function(case, values) -> results under other hash seeds


def run_native(world, fn, values, params, limit=15, again=None):
    """Run the harness on concrete values with the real code.  (verdict, label, detail, observations)"""
    S = Native(values, params)
    S.again = again
    old = core.ST
    core.set_state(None)
    if SNAPSHOTS:
        SNAPSHOTS[1].restore()
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(world, S)
        return "ok", None, None, S.observed
    except NativeFail as e:
        return "fail", e.label, repr(e.detail)[:2000], S.observed
    except Assumption as e:
        return "assumption", str(e), None, S.observed
    except _Timeout:
        return "fail", "does not terminate", f"no result within {limit} s", S.observed
    except RecursionError as e:
        return "fail", "exception RecursionError", where(e), S.observed
    except Exception as e:
        return "fail", f"exception {type(e).__name__}", f"{where(e)}: {str(e)[:300]}", S.observed
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            S.unpatch()
        finally:
            core.set_state(old)


class PathResult:
    __slots__ = ("kind", "label", "detail", "values", "reached", "nchecks")


SNAPSHOTS = []        # state outside objects: of the instrumented package, of the real one


def run_path(inst, native, case, prefix, res):
    """Explore one path; updates res."""
    st = core.State(prefix)
    core.set_state(st)
    rt.reset_placeholders()
    if SNAPSHOTS:
        SNAPSHOTS[0].restore()
    S = Symbolic(st, case.params)
    kind, label, detail, model = "ok", None, None, None
    signal.setitimer(signal.ITIMER_REAL, 30)
    try:
        case.fn[0](inst, S)
    except core.Infeasible:
        kind = "infeasible"
    except core.Violation as e:
        kind, label, model, detail = "viol", e.label, e.model, e.detail
    except core.Incomplete as e:
        kind, label = "incomplete", str(e)
    except (core.StepLimit, _Timeout):
        kind, label = "viol", "does not terminate"
    except RecursionError as e:
        kind, label, detail = "viol", "exception RecursionError", where(e)
    except Exception as e:
        kind, label, detail = "viol", f"exception {type(e).__name__}", f"{where(e)}: {str(e)[:300]}"
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        S.unpatch()
    res["alts"].extend(st.alts)
    res["decisions"] += len(st.trace) - len(prefix)
    if kind == "infeasible":
        res["infeasible"] += 1
        return
    if kind == "incomplete":
        k = label or "?"
        res["incomplete"][k] = res["incomplete"].get(k, 0) + 1
        if len(res["incomplete_ex"]) < 3:
            res["incomplete_ex"].append((case.name, k))
        return
    res["paths"] += 1
    res["checks"] += S.nchecks
    # the path condition: Z3 gives a witness (or shows that the path does not exist)
    if model is None:
        r, model = st.check(allvars=True, want_model=True)
        if r == core.z3.unsat:
            res["infeasible"] += 1
            res["paths"] -= 1
            return
        if r == core.z3.unknown:
            res["incomplete"]["solver unknown"] = res["incomplete"].get("solver unknown", 0) + 1
            return
    values = S.values(model)
    try:
        want = [core.evaluate(x, model) for x in S.observed]
    except Exception:
        want = None
    for x in S.reached:
        if x not in res["reached"]:
            res["reached"][x] = values
    if len(res["samples"]) < 2 and kind == "ok":
        res["samples"].append(values)
    again = (lambda: AGAIN[0](case.name, values)) if kind == "viol" and AGAIN[0] else None
    verdict, nlabel, ndetail, got = run_native(native, case.fn[1], values, case.params, again=again)
    if verdict == "fail":
        res["violations"].append(dict(case=case.name, label=nlabel, detail=ndetail, values=values,
                                      symbolic=label, decided="native" if kind == "ok" else "solver"))
        return
    if kind == "viol":
        res["spurious"].append(dict(case=case.name, label=label, detail=_show(detail), values=values, native=verdict,
                                    nlabel=nlabel))
        return
    if verdict == "assumption" or got != want:
        d = dict(case=case.name, values=values, verdict=verdict, symbolic=repr(want)[:600], native=repr(got)[:600])
        res["diverged"].append(d)
        return
    res["validated"] += 1


def _show(d):
    try:
        return repr(d)[:600]
    except BaseException:
        return "?"


def fresh():
    return dict(alts=[], decisions=0, infeasible=0, incomplete={}, incomplete_ex=[], paths=0, checks=0, reached={},
                samples=[], violations=[], spurious=[], diverged=[], validated=0)


def worker(conn, inst, native, cases, covers):
    SNAPSHOTS[:] = [Snapshot([w(n) for n in w]) for w in (inst, native)]
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")

        def start(code, off):
            if "/mau/" in code.co_filename and core.ST is not None:
                seen.add(code.co_filename.rsplit("/mau/", 1)[1] + ":" + code.co_qualname)
            elif core.ST is None:
                return None
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except ValueError:
        pass
    while True:
        msg = conn.recv()
        if msg is None:
            break
        ci, prefixes, slice_ = msg
        case = cases[ci]
        res = fresh()
        q0 = dict(core.STATS)
        t0 = time.monotonic()
        stack = list(prefixes)
        n = 0
        try:
            while stack:
                run_path(inst, native, case, stack.pop(), res)
                n += 1
                stack.extend(res["alts"])
                res["alts"] = []
                if time.monotonic() - t0 > slice_ or len(res["violations"]) >= 3:
                    break
            res["left"] = stack
        except BaseException as e:
            res["left"] = []
            res["error"] = "".join(traceback.format_exception(e))
        res["stats"] = {k: v - q0.get(k, 0) for k, v in core.STATS.items()}
        res["funcs"] = sorted(seen)
        seen.clear()
        res["ext"] = dict(rt.EXT_LOG)
        rt.EXT_LOG.clear()
        res["ci"] = ci
        conn.send(res)
    Scratch.drop()
    conn.close()


class Result:
    pass


def explore(inst, native, cases, budget, jobs=8, seed=0, stop_first=True, progress=None):
    ctx = multiprocessing.get_context("fork")
    rnd = random.Random(seed)
    pending = [[()] for _ in cases]           # prefixes left per case
    total = fresh()
    total.pop("alts")
    total["stats"], total["funcs"], total["ext"], total["errors"] = {}, set(), {}, []
    per_case = [dict(name=c.name, paths=0, time=0.0, done=False) for c in cases]
    inflight = [0] * len(cases)
    conns, procs = [], []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, inst, native, cases, None), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    idle = list(range(jobs))
    busy = {}
    t0 = time.monotonic()
    rr = 0
    stopping = False
    from multiprocessing.connection import wait
    while True:
        left = budget - (time.monotonic() - t0)
        if left <= 0:
            stopping = True
        while idle and not stopping:
            live = [i for i in range(len(cases)) if pending[i]]
            if not live:
                break
            i = live[rr % len(live)]
            rr += 1
            q = pending[i]
            k = rnd.random()
            # mostly depth first (keeps the queue short), sometimes from the oldest end (breadth)
            share = max(1, len(q) // (2 * jobs))
            if k < 0.5:
                items, pending[i] = q[-share:], q[:-share]
            else:
                items, pending[i] = q[:share], q[share:]
            w = idle.pop()
            inflight[i] += 1
            busy[w] = (i, time.monotonic())
            conns[w].send((i, items, min(0.25 if per_case[i]["time"] < 2 else 1.0, max(0.05, left))))
        if not busy:
            break
        for c in wait([conns[w] for w in busy], timeout=1.0):
            w = conns.index(c)
            try:
                res = c.recv()
            except EOFError:
                i, _ = busy.pop(w)
                inflight[i] -= 1
                total["errors"].append(f"worker died in case {cases[i].name}")
                stopping = True
                continue
            i, ts = busy.pop(w)
            inflight[i] -= 1
            idle.append(w)
            pending[i].extend(res["left"])
            pc = per_case[i]
            pc["paths"] += res["paths"]
            pc["time"] += time.monotonic() - ts
            for k in ("decisions", "infeasible", "paths", "checks", "validated"):
                total[k] += res[k]
            for k in ("violations", "spurious", "diverged", "incomplete_ex"):
                total[k].extend(res[k])
            for k, v in res["incomplete"].items():
                total["incomplete"][k] = total["incomplete"].get(k, 0) + v
            for k, v in res["reached"].items():
                total["reached"].setdefault(k, v)
            for s in res["samples"]:
                if sum(1 for c_, _ in total["samples"] if c_ == pc["name"]) < 2:
                    total["samples"].append((pc["name"], s))
            for k, v in res["stats"].items():
                total["stats"][k] = total["stats"].get(k, 0) + v
            for k, v in res["ext"].items():
                total["ext"][k] = total["ext"].get(k, 0) + v
            total["funcs"].update(res["funcs"])
            if res.get("error"):
                total["errors"].append(res["error"])
            if stop_first and res["violations"]:
                stopping = True
        if stopping and time.monotonic() - t0 > budget + 40:
            for w in busy:
                procs[w].kill()
            total["errors"].append("a worker did not answer: " + ", ".join(cases[i].name for i, _ in busy.values()))
            break
    for w, c in enumerate(conns):
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    for i, pc in enumerate(per_case):
        pc["left"] = len(pending[i])
        pc["done"] = not pending[i] and not inflight[i]
        pc["time"] = round(pc["time"], 2)
    total["cases"] = per_case
    total["complete"] = all(pc["done"] for pc in per_case) and not total["incomplete"] and not total["errors"]
    total["wall"] = time.monotonic() - t0
    return total


def replay_file(directory, prop, v, tier, seed):
    os.makedirs(directory, exist_ok=True)
    data = dict(property=prop, tier=tier, seed=seed, **v)
    text = json.dumps(data, indent=1, sort_keys=True)
    path = os.path.join(directory, f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text)
    return path
