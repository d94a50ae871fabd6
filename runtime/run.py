"""run.py PROP --seed N --budget SECONDS --out FILE | run.py --replay FILE"""
import argparse
import ast
import json
import os
import random
import sys
import time

t_real = time.monotonic
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run_case(fn, params):
    import vrt
    rt = vrt.Rt()
    if getattr(fn, "sync", False):
        try:
            fn(params, rt)
        except Exception as ex:
            import traceback
            rt.fails.append(f"exception {ex!r} {traceback.format_exc()[-600:]}")
        return rt.fails

    async def main(rt):
        try:
            await fn(params, rt)
        except (vrt.Hang, vrt.Deadlock):
            raise
        except BaseException as ex:
            import traceback
            rt.fails.append(f"exception {ex!r} {traceback.format_exc()[-900:]}")

    return rt.run(main)


def shrink(fn, params, limit=400):
    """drop list items while the case still fails"""
    import copy
    cur = params
    tries = 0
    changed = True
    while changed and tries < limit:
        changed = False
        for key in list(cur):
            v = cur[key]
            if not isinstance(v, list) or not v:
                continue
            for i in range(len(v)):
                cand = copy.deepcopy(cur)
                del cand[key][i]
                tries += 1
                try:
                    if run_case(fn, cand) and not any("exception" in f for f in run_case(fn, cand)):
                        cur = cand
                        changed = True
                        break
                except Exception:
                    pass
                if tries >= limit:
                    break
            if changed:
                break
    return cur


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--fam")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = t_real()
    import cases
    if a.replay:
        d = json.load(open(a.replay))
        fn = next(f for n, g, f, s, w in cases.FAM[d["property"]] if n == d["family"])
        fails = run_case(fn, ast.literal_eval(d["params"]))
        for f in fails:
            print("FAIL", f)
        print("reproduced" if fails else "not reproduced")
        sys.exit(1 if fails else 0)
    fams = [f for f in cases.FAM.get(a.prop, []) if not a.fam or f[0] == a.fam]
    res = {"property": a.prop, "evaluations": 0, "distinct": 0, "families": {}, "failures": [], "samples": []}
    seen = set()

    def one(name, fn, params):
        key = (name, repr(params))
        res["evaluations"] += 1
        new = key not in seen
        seen.add(key)
        fails = run_case(fn, params)
        res["families"][name] = res["families"].get(name, 0) + 1
        if new and len(res["samples"]) < 4 and len(repr(params)) < 400:
            res["samples"].append({"family": name, "params": repr(params)})
        if fails:
            sp = shrink(fn, params) if not getattr(fn, "noshrink", False) else params
            f2 = run_case(fn, sp) or fails
            res["failures"].append({"property": a.prop, "family": name, "params": repr(sp), "messages": [m[:1500] for m in f2[:3]]})
        return bool(fails)

    stop = False
    for name, gen, fn, small, w in fams:
        if small:
            for params in small():
                if one(name, fn, params):
                    stop = True
                    break
    if not stop:
        r = random.Random(f"{a.seed}/{a.prop}")
        wl = [f for f in fams for _ in range(f[4])]
        n = 0
        while wl and n < a.max and t_real() - t0 < a.budget:
            name, gen, fn, small, w = r.choice(wl)
            n += 1
            if one(name, fn, gen(r)):
                break
    import vrt
    res["known"] = vrt.SEEN_KNOWN
    res["distinct"] = len(seen)
    res["wall_s"] = t_real() - t0
    out = json.dumps(res)
    if a.out:
        open(a.out, "w").write(out)
    else:
        print(out)
    sys.exit(1 if res["failures"] else 0)


if __name__ == "__main__":
    main()
