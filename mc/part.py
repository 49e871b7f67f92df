"""Runs one part of a check in its own interpreter and writes a JSON result."""
import importlib
import json
import logging
import sys
import time
import traceback


def main():
    spec = json.loads(sys.argv[1])
    res = {"module": spec["module"], "states": 0, "transitions": 0, "traces": 0, "samples": [], "viol": [], "capped": False,
           "detail": []}
    from . import loader
    loader.install(spec["mode"])
    if spec["mode"] == "full":
        logging.disable(logging.CRITICAL)
    else:
        logging.getLogger().addHandler(logging.NullHandler())
        logging.lastResort = None
    import warnings
    warnings.simplefilter("ignore")
    from . import enumrun, explore, sched
    mod = importlib.import_module("mc.props." + spec["module"])
    tier, known = spec["tier"], set(spec["known"])
    t0 = time.time()
    deadline = t0 + spec["cap"]
    if spec.get("replay"):
        rp = spec["replay"]
        if rp["kind"] == "schedule":
            h = [h for h in mod.HARNESSES("thorough") if h.name == rp["harness"]] or [h for h in mod.HARNESSES("quick") if h.name == rp["harness"]]
            msgs = explore.confirm(h[0], rp["viol"])
            res["replayed"] = msgs
        else:
            ctx = enumrun.Ctx(tier)
            case = rp["case"]
            match = [c for c in mod.CASES(tier) if repr(c) == rp["repr"]] or [c for c in mod.CASES("thorough") if repr(c) == rp["repr"]]
            if match:
                case = match[0]
            res["replayed"] = [list(x) for x in enumrun.run_one(mod, case, ctx)]
        json.dump(res, open(spec["out"], "w"))
        return
    if hasattr(mod, "CASES"):
        r = enumrun.run_cases(mod, tier, deadline, known)
        res["states"] += len(r["states"])
        res["transitions"] += r["transitions"]
        res["traces"] += r["ran"]
        res["capped"] |= r["capped"]
        res["samples"] += r["samples"][:4]
        res["detail"].append({"engine": "enumeration", "module": spec["module"], "cases": r["ran"], "states": len(r["states"]),
                              "steps": r["transitions"], "distinct_outcomes": len(r["outcomes"]), "complete": not r["capped"]})
        for key, (k, msg, case, n) in sorted(r["viol"].items(), key=lambda kv: kv[1][0]):
            res["viol"].append({"kind": "case", "key": key, "msg": msg, "case": case, "repr": repr(case), "count": n})
    if hasattr(mod, "HARNESSES") and not any(v["key"] not in known for v in res["viol"]):
        hs = mod.HARNESSES(tier)
        pool = explore.Pool(hs)
        try:
            for hi, h in enumerate(hs):
                b = h.thorough_bound if tier == "thorough" else h.bound
                x = msgs = None
                try:
                    x = explore.explore(hi, b, pool, deadline)
                    msgs = x["viol"] and explore.confirm(h, x["viol"])
                except sched.Divergence:
                    pass
                if x is None or x["viol"] and (msgs is None or msgs[0] is None or msgs[0] != msgs[1]):
                    # Something outlives an execution: start every execution from the same state.
                    pool.terminate()
                    pool = explore.Pool(hs)
                    x = explore.explore(hi, b, pool, deadline, iso=True)
                    msgs = x["viol"] and explore.confirm(h, x["viol"])
                res["states"] += x["nodes"]
                res["transitions"] += x["steps"]
                res["traces"] += x["runs"]
                res["capped"] |= x["capped"]
                res["detail"].append({"engine": "schedules", "harness": h.name, "schedules": x["runs"], "tree_nodes": x["nodes"],
                                      "scheduling_steps": x["steps"], "preemption_bound_completed": x["bound_completed"],
                                      "scheduling_sites": x.get("sites", 0), "distinct_outcomes": len(x["outcomes"]),
                                      "longest_schedule": x["maxpts"], "restarts_for_new_conflicts": x["restarts"]})
                res["samples"].append(f"{h.name}: outcome {next(iter(x['outcomes'].values()), '-')}")
                if x["viol"]:
                    v = x["viol"]
                    key = h.name + ":" + h.key(v["msg"])
                    if msgs[0] != msgs[1] or msgs[0] is None:
                        raise sched.Divergence(f"{h.name}: violation does not replay: {v['msg']} vs {msgs}")
                    res["viol"].append({"kind": "schedule", "key": key, "msg": v["msg"], "harness": h.name, "viol": v, "count": 1})
                    if key not in known:
                        break
        finally:
            pool.terminate()
    res["wall"] = time.time() - t0
    json.dump(res, open(spec["out"], "w"), default=repr)


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        import os
        os._exit(3)
    import os
    sys.stdout.flush()
    os._exit(0)
