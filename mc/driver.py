"""mc.sh <ID>: run every part of a property's check, write evidence, report."""
import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from .registry import PARTS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_part(pid, part, tier, known, cap, replay=None):
    fd, out = tempfile.mkstemp(prefix="mcpart")
    os.close(fd)
    spec = dict(part, tier=tier, known=list(known), out=out, cap=cap)
    if replay:
        spec["replay"] = replay
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("OTEL_"):
            del env[k]
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT, GRPC_ENABLE_FORK_SUPPORT="0",
               GRPC_VERBOSITY="NONE")
    try:
        p = subprocess.run([f"/opt/venv-{part['venv']}/bin/python", "-B", "-m", "mc.part", json.dumps(spec)], cwd=ROOT, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=cap + 120)
        data = open(out).read()
        if p.returncode or not data:
            return None, f"part {part['module']} failed (rc {p.returncode})\n{p.stdout[-2000:]}\n{p.stderr[-4000:]}"
        return json.loads(data), p.stderr
    except subprocess.TimeoutExpired as e:
        return None, f"part {part['module']} timed out: {e.stderr}"
    finally:
        os.unlink(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    parts = PARTS[pid]
    if a.replay:
        rp = json.load(open(a.replay))
        part = next(p for p in parts if p["module"] == rp["module"])
        r, err = run_part(pid, part, tier, {}, 600, rp)
        print(json.dumps(r and r.get("replayed"), indent=1), err if r is None else "")
        bad = r is None or any(r["replayed"])
        sys.exit(1 if bad else 0)
    known = known_findings(pid)
    cap_total = 3000 if tier == "thorough" else 420
    agg = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "detail": [], "exhaustive": True}
    viols, errors, seen_known = [], [], {}
    for part in parts:
        if a.part and part["module"] != a.part:
            continue
        left = cap_total - (time.time() - t0)
        r, err = run_part(pid, part, tier, known, max(30, left))
        if r is None:
            errors.append(err)
            continue
        agg["states"] += r["states"]
        agg["transitions"] += r["transitions"]
        agg["traces_validated_against_impl"] += r["traces"]
        agg["samples"] += r["samples"]
        agg["detail"] += r["detail"]
        agg["exhaustive"] &= not r["capped"]
        for v in r["viol"]:
            v["module"] = part["module"]
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                viols.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": agg,
        "assumptions": [
            "bounded: alphabets, depths and preemption bounds as given in coverage.detail and DESIGN.md",
            "the enumeration is deterministic; VERIF_SEED does not influence it",
        ],
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    if not agg["samples"]:
        agg["samples"] = ["none"]
    tmp = os.path.join(ROOT, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))
    for k, v in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for v in viols[:8]:
        h = hashlib.sha1((v["key"] + v["msg"]).encode("utf8", "replace")).hexdigest()[:10]
        path = os.path.join(ROOT, "out", f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=pid), f, indent=1, default=repr)
        print(f"  [{v['module']}] {v['key']} (x{v['count']}): {v['msg'][:600]}")
        print(f"    " + (f"case: {v['repr'][:400]}" if v["kind"] == "case" else "schedule: " + " | ".join(v["viol"]["trace"])[:1500]))
        print(f"VIOLATION property={pid} replay={path}")
    d = "; ".join(
        f"{x.get('harness', x.get('module'))}: {x.get('schedules', x.get('cases'))} " + (f"schedules, bound {x['preemption_bound_completed']}" if "harness" in x else "cases")
        + f", {x.get('distinct_outcomes')} outcomes"
        for x in agg["detail"]
    )
    print(f"{pid} {tier}: states={agg['states']} transitions={agg['transitions']} traces={agg['traces_validated_against_impl']} "
          f"exhaustive={agg['exhaustive']} wall={wall:.1f}s [{d}]")
    for e in errors:
        print("ERROR:", e)
    if viols:
        sys.exit(1)
    sys.exit(3 if errors else 0)


if __name__ == "__main__":
    main()
