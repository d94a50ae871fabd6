"""verify.py PROP --tier T --out FILE    all units of a property, in parallel
   verify.py --unit MODULE:CLASS --out FILE   one unit (worker)

A unit is one function (or small class) under contract.  Its obligations are generated from the
current source in $VERIF_REPO by executing it on symbolic values and are discharged by z3.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(6000)
sys.dont_write_bytecode = True

from engine.plan import prop_of, units_of  # noqa: E402


# ---------------------------------------------------------------- worker
def monitor(seen, repo):
    """records which functions of the repository were executed"""
    m = sys.monitoring
    try:
        m.use_tool_id(3, "vfuncs")
    except ValueError:
        return
    pre = os.path.join(repo, "aioreactive") + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            seen.add(f"{os.path.relpath(code.co_filename, repo)}:{code.co_qualname}")
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


def worker(spec, out, limit, slimit, prop):
    t0 = time.time()
    res = {"unit": spec, "status": "unsupported", "why": "", "search": None}
    seen = set()
    try:
        from engine import base, explore, load, sym
        mod, cls = spec.rstrip("!").split(":")
        fine = spec.endswith("!")
        m = importlib.import_module("engine.units." + mod)
        monitor(seen, load.REPO)
        u = getattr(m, cls)()
        if fine:
            u.fine, u.name = True, u.name + " (events between any two steps)"
        base.CUR_UNIT[0] = u
        u.frame = prop == "C22"
        res["name"] = u.name
        res["doc"] = (u.__doc__ or "").strip().split("\n")[0]
        r = explore.Explorer(u, deadline=time.time() + limit).run()
        res.update(status=r.status, why=r.why[:600], modes=r.modes, paths=r.paths, obligations=r.obligations,
                   labels=r.labels, queries=r.checks, solver_s=round(r.solver_s, 2),
                   failed=[{"label": l, "kind": k, "trace": tr[-60:], "model": mo} for l, k, tr, mo in r.failed[:40]],
                   missing=r.missing,
                   assumptions=list(getattr(u, "notes", ())),
                   sample=[{"mode": i, "invariant": inv[:14]} for i, inv in r.invariants[:3]])
        if r.status != "proved":
            sym.CONCRETE["max"] = 3
            base.CUR_UNIT[0] = u2 = getattr(m, cls)()
            u2.frame, u2.fine = u.frame, u.fine
            s = explore.search_all(u2, time.time() + slimit)
            res["search"] = s
            ref = getattr(u, "ref", None)
            if ref is not None and res["status"] == "unproved":
                base.CUR_UNIT[0] = ur = ref()
                rr = explore.Explorer(ur, deadline=time.time() + min(limit, 60)).run()
                if rr.status != "proved":
                    res.update(status="unsupported", search=None, why="the operator itself is not verified (" + rr.why[:200]
                               + "): decided by the operator's own property, its forms by the bounded check")
    except Exception as e:
        import traceback
        res["why"] = f"engine error: {type(e).__name__}: {e}"
        res["tb"] = traceback.format_exc()[-2000:]
    except BaseException as e:
        res["why"] = f"{type(e).__name__}: {e}"
    res["functions"] = sorted(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"))


# ---------------------------------------------------------------- driver
def run_units(specs, work, tier, prop, jobs=8):
    limit0, slimit0, budget = (150, 40, 520) if tier == "quick" else (900, 200, 6000)
    t00 = time.time()
    todo = list(specs)
    live = []
    results = {}
    while todo or live:
        while todo and len(live) < jobs:
            s = todo.pop(0)
            left = max(0, budget - (time.time() - t00))
            limit = max(15, min(limit0, left * 0.7))
            slimit = max(4, min(slimit0, left / (1 + 1.5 * len(todo) / jobs)))
            f = os.path.join(work, "unit." + s.replace(":", ".") + f".{os.getpid()}.json")
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--unit", s, "--out", f, "--for", prop, "--limit",
                                  str(limit), "--slimit", str(slimit)], stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL)
            live.append((s, f, p, time.time() + limit + slimit + 40))
        for x in list(live):
            s, f, p, t = x
            if p.poll() is None and time.time() < t:
                continue
            if p.poll() is None:
                p.kill()
                p.wait()
            live.remove(x)
            try:
                results[s] = json.load(open(f))
            except Exception:
                results[s] = {"unit": s, "status": "unsupported", "why": "worker died", "search": None}
            if os.path.exists(f):
                os.remove(f)
        time.sleep(0.02)
    return [results[s] for s in specs]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--unit")
    ap.add_argument("--for", dest="forprop", default="")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--limit", type=float, default=150)
    ap.add_argument("--slimit", type=float, default=40)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.unit:
        worker(a.unit, a.out, a.limit, a.slimit, a.forprop)
        return
    t0 = time.time()
    specs = units_of(a.prop, a.tier)
    rs = run_units(specs, os.path.dirname(os.path.abspath(a.out)), a.tier, a.prop, a.jobs)
    mine = lambda l, spec: prop_of(l, spec) == a.prop
    units, refuted, unproved, bounded = [], [], [], []
    ob = dis = 0
    funcs = set()
    for r in rs:
        spec = r["unit"]
        funcs |= set(r.get("functions", ()))
        mylabels = {l: n for l, n in r.get("labels", {}).items() if mine(l, spec)}
        nfail = {}
        for f in r.get("failed", ()):
            if mine(f["label"], spec):
                nfail[f["label"]] = nfail.get(f["label"], 0) + 1
        st = r["status"]
        if st == "unproved" and not nfail and not r.get("missing"):
            st = "proved"                     # the failing obligations belong to another property
        n = sum(mylabels.values())
        if st == "proved" and not n:
            st, r["why"] = "unproved", "no obligation of this property was generated"
        if st in ("proved", "unproved"):
            ob += n
            dis += n - sum(nfail.values())
        s = r.get("search") or {}
        # a broken frame condition alone is no failing history (the state might never be read)
        genuine = [x for x in s.get("failures", ()) if mine(x["label"], spec) and not x["label"].startswith("C22 ")]
        units.append({"unit": r.get("name", spec), "contract": r.get("doc", ""), "status": st, "why": r.get("why", ""),
                      "obligations": mylabels, "modes": r.get("modes"), "paths": r.get("paths"),
                      "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                      "assumptions": r.get("assumptions", []), "bounded_search": None if not s else
                      {"paths": s["paths"], "depth": s["depth"], "complete": s["complete"]},
                      "sample_invariants": r.get("sample", [])[:2]})
        if genuine:
            refuted.append({"unit": r.get("name", spec), "obligation": genuine[0]["label"],
                            "trace": genuine[0]["trace"], "model": genuine[0]["model"]})
        elif st == "unproved":
            fs = [f for f in r.get("failed", ()) if mine(f["label"], spec)]
            unproved.append({"unit": r.get("name", spec), "why": r["why"], "failed": fs[:4],
                             "missing": r.get("missing"), "search": units[-1]["bounded_search"]})
        elif st != "proved":
            bounded.append({"unit": r.get("name", spec), "why": r.get("why", ""), "search": units[-1]["bounded_search"]})
    json.dump({"property": a.prop, "units": units, "refuted": refuted, "unproved": unproved, "bounded": bounded,
               "obligations": ob, "discharged": dis, "functions": sorted(funcs),
               "solver_s": round(sum(u["solver_s"] or 0 for u in units), 2), "wall_s": round(time.time() - t0, 2)},
              open(a.out, "w"), indent=1)


if __name__ == "__main__":
    main()
