"""Validation of meshes against their data: P25 (trace specification ValidTrace)."""
import os, json, random, re, math, tempfile, shutil
from fractions import Fraction
from common import *
from mesh import Grid, RAND_GRIDS, mesh_json, obs_json, random_cells, err, finer
import build

NONE = 999999999
SCALE = 10000
VALID_GRIDS = [g for g in RAND_GRIDS if g[0] not in ("tiny cells",)]


def lonlat(p, g):
    return build.lon_out(p[0], g, "std"), float(Fraction(p[1]) * g.u)


def scaled(v, square=False):
    v = float(v)
    if math.isnan(v):
        return NONE
    v = v * v if square else v
    return int(round(v * SCALE)) if abs(v) < 2000 else -1


def whole(v):
    v = float(v)
    return int(v) if math.isfinite(v) and v == int(v) and abs(v) < 10 ** 6 else NONE


def run_valid(sc):
    return run_full(sc) if sc["op"] == "full" else run_sampled(sc)


def run_full(sc):
    import pandas as pd
    from meshiphi.mesh_validation.full_mesh_validator import FullMeshValidator
    g = Grid(*sc["grid"])
    rng = random.Random(sc["seed"])
    trace = dict(C=g.C, steps=[])
    cells = [tuple(c) for c in sc["cells"]]
    nan = float("nan")
    j = mesh_json(g, cells, [0] * len(cells))
    for c, v in zip(j["cellboxes"], sc["vals"]):
        del c["v"]
        c.update({n: nan if x == NONE else float(x) for n, x in zip(sc["mnames"], v)})
    rows = []
    for p in sc["pts"]:
        lon, lat = lonlat(p, g)
        rows.append(dict(lat=lat, long=lon, **{n: nan if x == NONE else float(x) for n, x in zip(sc["snames"], p[2])}))
    cols = ["lat", "long"] + sc["snames"]
    rng.shuffle(cols)
    df = pd.DataFrame(rows, columns=cols)
    if rng.random() < .5:
        df["remark"] = "x"
    s = dict(op="full", ok=True, cells=[dict(x=norm_x(c[0], g.C), y=c[1], w=c[2], h=c[3], v=v) for c, v in zip(cells, sc["vals"])],
             pts=[dict(x=norm_x(p[0], g.C), y=p[1], v=p[2]) for p in sc["pts"]], count=-1, mean=NONE, meansq=NONE)
    try:
        v = FullMeshValidator(json.loads(json.dumps(j)), df)
        if len(sc["mnames"]) == 1:
            r = v.validate_scalar(sc["snames"][0], sc["mnames"][0])
            m, q = r["mean_err"], r["root_mean_squared_err"]
        else:
            r = v.validate_vector(list(sc["snames"]), list(sc["mnames"]))
            m, q = r["mean_d_vector_mag"], r["root_mean_squared_d_vector_mag"]
        s.update(count=int(r["cellbox_count"]), mean=scaled(m), meansq=scaled(q, True))
    except Exception as e:
        s.update(ok=False, err=err(e))
    trace["steps"].append(s)
    return trace


def run_sampled(sc):
    from meshiphi.mesh_validation.mesh_validator import MeshValidator
    g = Grid(*sc["grid"])
    trace = dict(C=g.C, steps=[])
    d = tempfile.mkdtemp(prefix="v_", dir=scratch())
    try:
        try:
            loaded = [build.write_source(s, g, d, i) for i, s in enumerate(sc["sources"])]
            f = os.path.join(d, "mesh file.json")
            json.dump(dict(config=dict(mesh_info=build.config_of(sc, g, loaded)), cellboxes=[], neighbour_graph={}), open(f, "w"))
            mv = MeshValidator(f)
            j = json.loads(json.dumps(mv.env_mesh.to_json()))
            o = obs_json(j, g)
            if not o["lattice"]:
                raise ValueError("cells off the lattice")
            name = sc["sources"][0]["names"][0]
            cells = [dict(x=r[0], y=r[1], w=r[2], h=r[3], v=[whole(c[name])]) for r, c in zip(o["cells"], j["cellboxes"])]
            trace["steps"].append(dict(op="build", ok=True))
        except Exception as e:
            trace["steps"].append(dict(op="build", ok=False, err=err(e)))
            return trace
        pts = [dict(x=p[0], y=p[1], v=[p[3]]) for p in sc["sources"][0]["pts"]]
        for op in sc["ops"]:
            s = dict(op=op["op"], ok=True, cells=cells, pts=pts)
            try:
                mv.validation_length = g.deg(op["length"])
                if op["op"] == "sample":
                    x, y = op["at"]
                    s["square"] = dict(x=norm_x(x, g.C), y=y, w=min(op["length"], g.x + g.nx * g.w - x), h=min(op["length"], g.y + g.ny * g.h - y))
                    at = [g.deg(y), g.lon(x)]
                    s["data"] = [whole(v) for v in mv.get_value_from_data(list(at))]
                    s["mesh"] = [whole(v) for v in mv.get_values_from_mesh(list(at))]
                else:
                    s["diff"] = sc["diff"]
                    s["meansq"] = scaled(mv.validate_mesh(*op["n"]), True)
            except Exception as e:
                s.update(ok=False, err=err(e), data=[], mesh=[], square=dict(x=0, y=0, w=1, h=1), meansq=NONE, diff=0)
            trace["steps"].append(s)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return trace


# --------------------------------------------------------------------------
def model(res, splits, pts):
    xs = ((4, 360), (178, 360))
    jobs = [(("ValidModel", cfg("VSpec", dict(X0=x, CIRC=c, MaxSplits=splits, MaxPts=pts), ["OneHome", "MeanBelowRms", "ExactIsZero", "FinerSame", "Emit"])), dict(timeout=700))
            for x, c in xs]
    out = []
    for (x, c), r in zip(xs, tlc_many(jobs)):
        res.model(f"ValidModel/{x}/{splits}/{pts}", r)
        for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S):
            h = json.loads(json.loads('"' + h + '"'))
            out.append(dict(op="full", kind="enumerated", grid=(x, 0, 2, 2, 2, 1, "1"), seed=len(out), mnames=["m"], snames=["s"],
                            cells=[(k["x"], k["y"], k["w"], k["h"]) for k in h["cells"]], vals=[k["v"] for k in h["cells"]],
                            pts=[[p["x"], p["y"], p["v"]] for p in h["pts"]]))
    if len(out) < 1000:
        raise MachineryError("too few situations from ValidModel")
    return out


STEPS = [(0, 0), (3, 4), (4, -3), (-3, 4), (0, 2), (-5, 0), (6, 8), (1, 0), (0, -1), (-4, -3)]


def gen_full(n, seed):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        kind, gr = VALID_GRIDS[i % len(VALID_GRIDS)]
        gr = finer(gr, 2)
        g = Grid(*gr)
        cells = random_cells(g, rng, rng.randrange(0, 6), 3)
        vec = rng.random() < .4
        miss = rng.choice([0, 0, .2])
        vals = [[NONE if rng.random() < miss else rng.randrange(-9, 10) for _ in range(2 if vec else 1)] for _ in cells]
        xs, ys = build.xrange_(g), build.yrange_(g)
        pts = []
        for _ in range(rng.randrange(0, 40)):
            if rng.random() < .6:                       # in or on a cell, at a whole distance from its value
                k = rng.randrange(len(cells))
                c = cells[k]
                x, y = norm_x(c[0] + rng.randrange(0, c[2] + 1), g.C), c[1] + rng.randrange(0, c[3] + 1)
                st = rng.choice(STEPS)
                v = [0 if a == NONE else a + b for a, b in zip(vals[k], st)]
            else:
                x, y = rng.choice(xs), rng.choice(ys)
                v = [rng.randrange(-9, 10) for _ in range(2 if vec else 1)]
            if rng.random() < miss / 2:
                v[rng.randrange(len(v))] = NONE
            if x == -g.C // 2 and g.wraps() and y < -10 ** 9:
                continue
            pts.append([x, y, v])
        names = ["uC", "vC"] if vec else ["elevation"]
        out.append(dict(op="full", kind=kind, grid=gr, seed=rng.randrange(10 ** 9), cells=cells, vals=vals, pts=pts, mnames=names,
                        snames=names if rng.random() < .5 else [n + "_src" for n in names]))
    return out


SAMPLED_GRIDS = [g for g in build.BUILD_GRIDS if g[0] in ("regional", "regional wide", "equator", "single cell", "up to the pole", "down to the pole", "touching 180", "touching -180", "fine cells off the degree", "antimeridian edge", "antimeridian straddling", "fine cells at the antimeridian")]


def gen_sampled(n, seed):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        kind, gr = SAMPLED_GRIDS[i % len(SAMPLED_GRIDS)]
        g = Grid(*gr)
        W, H = g.nx * g.w, g.ny * g.h
        sc = dict(op="sampled", grid=gr, kind=kind, maxd=rng.choice([1, 2, 3]), minpts=rng.choice([0, 1, 2]), sources=[], ops=[])
        if rng.random() < .6:                            # squares of the samples' size
            if rng.random() < .6:
                pts = [p for p in build.rand_points(g, rng, rng.randrange(2, 40), 12)]
                s = build.source("scalar_csv", ["a"], pts or [[norm_x(g.x + 1, g.C), g.y + 1, 0, 3]], rng.choice(["MIN", "MAX"]))
            else:
                s = build.source("gebco", ["a"], build.rand_grid_points(g, rng, 40, 12), rng.choice(["MIN", "MAX"]))
            if rng.random() < .6:
                s["conds"] = [build.rand_cond(rng, 12)]
            sc["sources"].append(s)
            for _ in range(4):
                sc["ops"].append(dict(op="sample", length=rng.choice([1, 2, 3, 5, 8, 40]), at=[g.x + rng.randrange(0, W), g.y + rng.randrange(0, H)]))
        else:                                            # every point the same distance from its cell
            d = rng.randrange(0, 5)
            pts = []
            for c in g.initial():
                v = rng.randrange(-9, 10)
                for k in range(rng.randrange(0, 4)):
                    for e in (d, -d):
                        pts.append([norm_x(c[0] + rng.randrange(1, c[2] + 1), g.C), c[1] + rng.randrange(1, c[3] + 1), 0, v + e])
                if (c[0] + c[2] - g.x - W) % g.C == 0 and c[1] + c[3] == g.y + H:      # the north-east corner belongs to every sample
                    pts += [[norm_x(c[0] + c[2], g.C), c[1] + c[3], 0, v + e] for e in (d, -d)]
            rng.shuffle(pts)
            sc["diff"] = d
            sc["sources"].append(build.source("scalar_csv", ["a"], pts, "MEAN"))
            sc["ops"] = [dict(op="random", length=W + H, n=rng.choice([(), (1,), (3,), (16,)])) for _ in range(2)]
        out.append(sc)
    return out


def check_valid(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    scen = model(res, 2, 2) if thorough else model(res, 1, 2)
    rng = random.Random(seed)
    res.extra["situations_enumerated_by_tlc"] = len(scen)
    keep = 12000 if thorough else 1200
    if len(scen) > keep:
        scen = rng.sample(scen, keep)
    scen += gen_full(6000 if thorough else 500, seed)
    scen += gen_sampled(3000 if thorough else 260, seed + 1)
    import meshiphi.mesh_validation.full_mesh_validator, meshiphi.mesh_validation.mesh_validator     # noqa: before forking
    traces = []
    for sc, (s, tr) in zip(scen, run_pool(run_valid, scen, 60)):
        traces.append(tr if s == "ok" else dict(C=360, steps=[dict(op="build", ok=False, err="timeout")]))
    res.judged(traces, *validate("ValidTrace", traces, cost=lambda t: sum(1 + len(s.get("cells", [])) * len(s.get("pts", [])) for s in t["steps"])), scen)
    st = [s for t in traces for s in t["steps"]]
    res.extra["judged"] = {o: sum(1 for s in st if s["op"] == o) for o in ("full", "sample", "random")}
    res.extra["pairs_in_samples"] = sum(len(s["data"]) for s in st if s["op"] == "sample")
    return res
