#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     run one property check
   check.py replay <file>                   re-run a recorded violation"""
import os, sys, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import *

LEVEL = "model_checking"


def registry():
    import mesh, build, io_, conf, readers, builtin, raster, docs, compare, valid, plot
    reg = {
        "P01": lambda t, s: mesh.check_builder("P01", t, s, ["tiling", "depth", "ids", "effect"], None),
        "P02": lambda t, s: mesh.check_builder("P02", t, s, ["graph"], None),
        "P10": lambda t, s: mesh.check_loaded("P10", t, s, ["tiling", "effect", "values", "ids", "graph"]),
        "P11": lambda t, s: mesh.check_loaded("P11", t, s, ["tiling", "effect", "values", "ids", "graph"]),
        "P12": lambda t, s: mesh.check_loaded("P12", t, s, ["query"]),
    }
    for p in ("P09", "P15", "P16"):
        reg[p] = lambda t, s, p=p: io_.check_io(p, t, s)
    for p in ("P13", "P14"):
        reg[p] = lambda t, s, p=p: conf.check_conf(p, t, s)
    for p in build.PLAN:
        reg[p] = lambda t, s, p=p: build.check_build(p, t, s, build.WANT[p])
    reg["P20"] = lambda t, s: readers.check_readers("P20", t, s)
    reg["P22"] = lambda t, s: raster.check_raster("P22", t, s)
    reg["P26"] = lambda t, s: plot.check_plot("P26", t, s)
    reg["P23"] = lambda t, s: docs.check_docs("P23", t, s)
    reg["P24"] = lambda t, s: compare.check_compare("P24", t, s)
    reg["P25"] = lambda t, s: valid.check_valid("P25", t, s)
    reg["P21"] = lambda t, s: builtin.check_builtin("P21", t, s)
    return reg


def findings(pid):
    """known findings: {property, match} - match is a clause name plus a scenario predicate by key/value"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["known"] if f["property"] == pid]


def matches(f, v):
    if not set(v["clauses"]) <= set(f["clauses"]):
        return False
    return all(v["scenario"].get(k) == x for k, x in f["scenario"].items())


def main():
    if sys.argv[1] == "replay":
        return run_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch()
    ev = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    try:
        import_repo()
        res = registry()[pid](tier, seed)
    except MachineryError as e:
        print(f"ERROR property={pid} machinery: {e}", flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid} machinery failure", flush=True)
        sys.exit(2)
    known, new = [], []
    for v in res.violations:
        f = next((f for f in findings(pid) if matches(f, v)), None)
        (known if f else new).append((f, v))
    for line in sorted({f["what"] for f, _ in known}):
        print(f"KNOWN-FINDING: property={pid} {line}")
    replay = None
    by_clause = {}
    for _, v in new:
        by_clause.setdefault(tuple(v["clauses"]), []).append(v)
    for i, (cl, vs) in enumerate(sorted(by_clause.items())):
        v = min(vs, key=lambda v: len(json.dumps(v["trace"], default=str)))
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{i}.json")
        step = v["trace"]["steps"][v["pos"] - 1]
        jdump(dict(property=pid, clauses=list(cl), count=len(vs), step=v["pos"], error=step.get("err"), scenario=v["scenario"], trace=v["trace"]), path)
        replay = replay or path
        print(f"  clause {','.join(cl)}: {len(vs)} trace(s); e.g. step {v['pos']} of {path}" + (f" ({step.get('err')})" if step.get("err") else ""))
    cov = dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
               samples=res.samples or res.traces, trace_steps_judged=res.steps, spec_model_states=res.model_states,
               models=res.models, **res.extra)
    jdump(dict(property=pid, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 1),
               violations=len(new), known_findings=len(known), assumptions=ASSUMPTIONS.get(pid, []) + COMMON_ASSUMPTIONS), ev)
    print(f"{pid} {tier}: {res.traces} traces / {res.steps} steps judged by TLC, {res.model_states} model states, {time.time() - t0:.0f} s")
    if new:
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        sys.exit(1)
    sys.exit(0)


def run_replay(path):
    """run the recorded scenario again and let TLC judge what happens now"""
    import mesh, build, io_, conf, readers, builtin, raster, docs, compare, valid, plot
    rec = json.load(open(path))
    pid, sc = rec["property"], rec["scenario"]
    scratch()
    import_repo()
    if pid in build.PLAN:
        runs = [("BuildTrace", build.run_build(sc)[0], build.WANT[pid], True)]
        if pid == "P17":
            runs.append(("MeshTrace", build.run_build(sc)[1], ["tiling", "graph", "ids"], False))
    elif pid in ("P01", "P02"):
        want = ["tiling", "depth", "ids", "effect"] if pid == "P01" else ["graph"]
        runs = [("MeshTrace", build.run_build(sc)[1] if "sources" in sc else mesh.run_builder_history(sc), want, False)]
    elif pid in ("P10", "P11", "P12"):
        runs = [("MeshTrace", mesh.run_loaded(sc), ["query"] if pid == "P12" else ["tiling", "effect", "values", "ids", "graph"], False)]
    elif pid == "P16":
        runs = [("IOTrace", io_.run_same(sc), ["same"], False)]
    elif pid in ("P09", "P15"):
        runs = [("IOTrace", io_.run_io(sc), ["io"] if pid == "P09" else ["geojson"], False)]
    elif pid in ("P13", "P14"):
        runs = [("ConfTrace", conf.replay_run(sc), None, False)]
    elif pid == "P20":
        runs = [("ReadersTrace", readers.run_reader(sc), None, False)]
    elif pid == "P26":
        runs = [("PlotTrace", plot.run_plot(sc), None, False)]
    elif pid == "P22":
        runs = [("RasterTrace", raster.run_raster(sc), None, False)]
    elif pid == "P25":
        runs = [("ValidTrace", valid.run_valid(sc), None, False)]
    elif pid == "P24":
        runs = [("CompareTrace", compare.run_compare(sc), None, False)]
    elif pid == "P23":
        runs = [("DocsTrace", docs.run_docs(sc), None, False)]
    else:
        runs = [("BuiltinTrace", builtin.run_any(sc), None, False)]
    bad = False
    for module, trace, want, done in runs:
        for _, pos, clauses in validate(module, [trace], want, done=done)[0]:
            bad = True
            print(f"step {pos}: {','.join(clauses)} {trace['steps'][pos - 1].get('err', '')}")
    print(f"recorded: step {rec['step']}: {','.join(rec['clauses'])}")
    if bad:
        print(f"VIOLATION property={pid} replay={path}")
    sys.exit(1 if bad else 0)


COMMON_ASSUMPTIONS = [
    "the models are exhaustive only up to the stated constants; deeper behaviour is sampled with the given seed",
    "coordinates are multiples of a dyadic or decimal lattice unit that floating point represents exactly",
]
ASSUMPTIONS = {}

if __name__ == "__main__":
    main()
