"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only scenario]"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--workers", type=int, default=None)
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    from mc import core, env

    env.install()
    import mlpaper

    where = os.path.dirname(os.path.dirname(os.path.abspath(mlpaper.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        print("harness error: mlpaper imported from %s, not %s" % (where, REPO))
        return 2
    mod = importlib.import_module("mc.checks.%s" % args.prop.lower())
    import numpy as np

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    scens = {}
    for entry in mod.scenarios(args.tier):
        name, body = entry[0], entry[1]
        scens[name] = (body, entry[2] if len(entry) > 2 else 5)

    if args.replay:
        rec = json.load(open(args.replay))
        ch = core.Chooser(0, 1, 0)
        ch.reset([tuple(x) for x in rec["forced"]])
        body, _ = scens[rec["scenario"]]
        import signal

        signal.signal(signal.SIGALRM, core._alarm)
        v = core.run_one(body, ch, core.Ctx(args.prop, args.tier, ch), rec["seed"])
        print("choices: %s" % [(n, core.jsonable(o)) for n, o in ch.labels])
        print("verdict: %s" % ("holds on this execution" if v is None else json.dumps(v, indent=1)))
        return 0 if v is None else 1

    cap = getattr(mod, "TIME_CAP", {}).get(args.tier, 600 if args.tier == "quick" else 4 * 3600)
    rep = core.explore(args.prop, args.tier, scens, seed, cap, args.workers, args.only)
    wall = time.time() - t0

    # no state carried by this process: a capped run is never called exhaustive
    viol = rep["violations"]
    status = 0
    if viol:
        status = 1
    elif rep["errors"]:
        status = 2
    ev = dict(
        property=args.prop,
        tier=args.tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=rep["states"],
            transitions=sum(s["calls"] for s in rep["scenarios"].values()),
            traces_validated_against_impl=sum(s["executions"] for s in rep["scenarios"].values()),
            oracle_comparisons=sum(s["compared"] for s in rep["scenarios"].values()),
            rejections_confirmed=sum(s["rejected"] for s in rep["scenarios"].values()),
            distinct_outcomes=rep["outcomes"],
            exhaustive=rep["complete"],
            scenarios=rep["scenarios"],
            bounds=getattr(mod, "BOUNDS", {}).get(args.tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
            meaning=(
                "states: distinct canonical implementation calls/states visited (function and arguments, or abstract state); "
                "transitions: calls into the implementation; traces: complete executions of the choice tree, each run on the "
                "real code and compared step by step with the reference model"
            ),
            samples=rep["samples"],
            notes=rep["notes"],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % args.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % args.prop))

    c = ev["coverage"]
    print(
        "%s %s: executions=%d impl_calls=%d states=%d comparisons=%d outcomes=%d exhaustive=%s wall=%.1fs"
        % (
            args.prop,
            args.tier,
            c["traces_validated_against_impl"],
            c["transitions"],
            c["states"],
            c["oracle_comparisons"],
            c["distinct_outcomes"],
            c["exhaustive"],
            wall,
        )
    )
    for n, s in rep["scenarios"].items():
        print("   %-28s executions=%-8d calls=%-8d rejected=%-6d wall=%.1fs%s" % (n, s["executions"], s["calls"], s["rejected"], s["wall_s"], "" if s["complete"] else "  INCOMPLETE"))
    for n in rep["notes"]:
        print("   note: %s" % n)
    for line in known_findings(args.prop):
        print(line)
    for v in viol:
        d = os.path.join(HERE, "out", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (args.prop, v["scenario"].replace(" ", "_").replace("/", "_")))
        v["property"], v["seed"], v["tier"] = args.prop, seed, args.tier
        v["how_to_replay"] = "cd /verif && ./check.sh %s %s --replay %s" % (args.prop, args.tier, path)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("scenario %s: %s" % (v["scenario"], v["what"]))
        d = v.get("detail") or {}
        for k in ("call", "got", "want"):
            if d.get(k):
                print("   %s: %s" % (k, d[k][:1200]))
        if d.get("trace"):
            print(d["trace"])
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        break
    for e in rep["errors"]:
        print("ERROR: %s" % e)
    return status


def known_findings(prop):
    """Open (unrepaired) findings of this property; fixed ones suppress nothing."""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                out.append("KNOWN-FINDING: " + line[len("open: ") :])
    return out


if __name__ == "__main__":
    sys.exit(main())
