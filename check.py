"""check.py PROP : decide one property on the current tree of $VERIF_REPO (default /repo).

exit 0: held on everything explored; exit 1 + VIOLATION line; see DESIGN.md.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYREPO = "/opt/venv/bin/python"
PYVT = "python3-vt"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
for k in ("PYTHONPATH", "PYTHONHOME"):
    ENV.pop(k, None)


def start_runtime(prop, out):
    budget = 20 if TIER == "quick" else 240
    return subprocess.Popen([PYREPO, os.path.join(HERE, "runtime", "run.py"), prop, "--seed", str(SEED), "--budget", str(budget), "--out", out],
                            env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def start_engine(prop, out):
    p = os.path.join(HERE, "engine", "verify.py")
    if not os.path.exists(p):
        return None
    return subprocess.Popen([PYVT, p, prop, "--tier", TIER, "--out", out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish(proc, limit):
    if proc is None:
        return None, ""
    try:
        o, _ = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        proc.kill()
        o, _ = proc.communicate()
        return "timeout", o
    return proc.returncode, o


COMMON = [
    "z3 and CPython 3.12 are trusted; the engine runs the repository's functions in CPython on symbolic proxies (engine/load.py states the AST rewriting)",
    "scheduling: environment events happen when the loop is idle; units marked 'events between any two steps' also explore one further event between any two callbacks of every segment, units marked 'bursts' two notifications back to back; ready callbacks run in asyncio's FIFO order",
    "sources are serialised and follow the notification grammar, and stop emitting once disposed; disposables supplied by the environment return without error",
    "user values are opaque: only None-ness, identity, ==, truth and pair structure are observable",
    "integers are mathematical; times are exact rationals",
    "the expression library (MailboxProcessor, AsyncDisposable, Block, ...) is executed as installed, not specified",
]


def evidence(prop, eng, rt):
    cov = {"evaluations": rt["evaluations"] if rt else 0, "distinct_nontrivial": rt["distinct"] if rt else 0,
           "rule": "bounded stand-in beside the proof: generated concrete histories on the real code, distinct by family and parameters",
           "samples": rt["samples"] if rt else []}
    notes = []
    level = "exploration"
    if eng:
        cov.update({"obligations": eng["obligations"], "discharged": eng["discharged"],
                    "checker_cmd": f"python3-vt engine/verify.py {prop} --tier {TIER} --out FILE",
                    "trusted_base": ["z3 4.x (python z3-solver)", "CPython 3.12", "engine/*.py", "expression (as installed)"],
                    "backend": "z3", "solver_s": eng["solver_s"], "engine_wall_s": eng["wall_s"],
                    "functions_under_contract": eng["functions"], "units": eng["units"],
                    "bounded_units": eng["bounded"], "refuted": eng["refuted"], "not_discharged": eng["unproved"]})
        notes = list(COMMON)
        for u in eng["units"]:
            for a in u["assumptions"]:
                if a not in notes:
                    notes.append(a)
        if eng["units"] and eng["obligations"] and not eng["bounded"] and not eng["unproved"] and not eng["refuted"]:
            level = "proof"
    return level, cov, notes


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    work = os.path.join(ev, "work")
    os.makedirs(work, exist_ok=True)
    ro, eo = os.path.join(work, f"{prop}.rt.json"), os.path.join(work, f"{prop}.eng.json")
    for f in (ro, eo):
        if os.path.exists(f):
            os.remove(f)
    rp, ep = start_runtime(prop, ro), start_engine(prop, eo)
    erc, eout = finish(ep, 700 if TIER == "quick" else 3000)
    rrc, rout = finish(rp, 150 if TIER == "quick" else 900)
    rt = json.load(open(ro)) if os.path.exists(ro) else None
    eng = json.load(open(eo)) if os.path.exists(eo) else None
    violations = []
    if rt is None:
        # the package cannot even be imported or the driver died: that is an error of the check, unless the tree is broken
        print(rout[-3000:])
        print(f"runtime driver failed rc={rrc}")
    if rt and rt["failures"]:
        f = rt["failures"][0]
        rpath = os.path.join(ev, f"{prop}.replay.json")
        json.dump(f, open(rpath, "w"), indent=1)
        violations.append((rpath, "", f["messages"][0]))
    if eng and (eng["refuted"] or eng["unproved"]):
        rpath = os.path.join(ev, f"{prop}.obligation.json")
        if eng["refuted"]:
            f = eng["refuted"][0]
            msg = f"obligation refuted: unit {f['unit']}: {f['obligation']}\n  " + "\n  ".join(f["trace"][-25:]) + f"\n  model {f['model'][:400]}"
            tail = ""
        else:
            f = eng["unproved"][0]
            msg = f"obligation not discharged: unit {f['unit']}: {f['why']}"
            tail = " no-failing-input-found"
        json.dump({"property": prop, "refuted": eng["refuted"], "not_discharged": eng["unproved"],
                   "verifier": f"python3-vt engine/verify.py {prop} --out FILE"}, open(rpath, "w"), indent=1)
        violations.append((rpath, tail, msg))
    level, cov, notes = evidence(prop, eng, rt)
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": notes,
               "violations": len(violations), "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(ev, f"{prop}.json"), "w"), indent=1)
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith(f"known: property={prop} ") and rt:
            ident = l.split("id=")[1].split()[0]
            if ident in rt.get("known", {}):
                print(f"KNOWN-FINDING: property={prop} {l.split(ident, 1)[1].strip()}")
    if violations:
        rpath, tail, msg = violations[0]
        print(msg[:3000])
        print(f"VIOLATION property={prop} replay={rpath}{tail}")
        sys.exit(1)
    if rt is None:
        sys.exit(2)
    for b in (eng or {}).get("bounded", ()):
        print(f"BOUNDED unit {b['unit']}: {b['why']}")
    print(f"OK property={prop} obligations={cov.get('obligations', 0)} discharged={cov.get('discharged', 0)} "
          f"units={len((eng or {}).get('units', ()))} harness_evaluations={cov['evaluations']}")
    sys.exit(0)


if __name__ == "__main__":
    main()
