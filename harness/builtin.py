"""P21: data that comes with the package - seasonal tables through real meshes,
abstract shapes and random fields through their loaders; judged by TLC
(spec/BuiltinTrace.tla)."""
import datetime
from common import *
from build import rat

TABLES = ("density", "thickness")
SHAPES = ("circle", "rectangle", "gradient", "checkerboard", "vector_circle", "vector_rectangle", "vector_gradient")


def iso(q):
    return "%04d-%02d-%02d" % tuple(q)


def east(x, w, C):
    e = norm_x(x + w, C)
    return C // 2 if e == -(C // 2) else e


def run_table(sc):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    K, C = sc["K"], 360 * sc["K"]
    x, y, cw, ch, nx, ny = sc["grid"]
    step = dict(op="table", set=sc["set"], agg=sc["agg"], **{"from": sc["from"], "to": sc["to"]}, ok=True, cells=[], vals=[], expected=nx * ny)
    try:
        par = {} if sc.get("plain") and sc["agg"] == "MEAN" else {"aggregate_type": sc["agg"]}
        conf = {"region": {"lat_min": y / K, "lat_max": (y + ch * ny) / K, "long_min": x / K, "long_max": (C // 2 if cw * nx == C else east(x, cw * nx, C)) / K,
                           "start_time": iso(sc["from"]), "end_time": iso(sc["to"]), "cell_width": cw / K, "cell_height": ch / K},
                "data_sources": [{"loader": sc["set"], "params": par}], "splitting": {"split_depth": 0, "minimum_datapoints": 1}}
        m = json.loads(json.dumps(MeshBuilder(conf).build_environmental_mesh().to_json()))
        mul = 100 if sc["set"] == "thickness" else 1
        for c in m["cellboxes"]:
            cx, cy, hw, hh = (lat_int(v, 2 * K) for v in (c["cx"], c["cy"], c["dcx"], c["dcy"]))
            if None in (cx, cy, hw, hh):
                step["cells"].append([BADINT, BADINT, 1, 1])
            else:
                step["cells"].append([norm_x((cx - hw) // 2, C), (cy - hh) // 2, hw, hh])
            v = c.get(sc["set"])
            step["vals"].append(rat(v * mul if isinstance(v, (int, float)) else v, False, 200000))
    except Exception as e:
        step.update(ok=False, err=f"{type(e).__name__}: {str(e)[:300]}")
    return dict(K=K, C=C, steps=[step])


def boundary(x, y, w, h, K, C):
    from meshiphi.mesh_generation.boundary import Boundary
    return Boundary([y / K, (y + h) / K], [x / K, east(x, w, C) / K], ["2020-01-01", "2020-01-02"])


def deliver(name, b, params):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    dl = DataLoaderFactory.get_dataloader(name, b, params, min_dp=1)
    names = list(dl.data_name_list) if hasattr(dl, "data_name_list") else [dl.data_name]
    df = dl.trim_datapoints(b)
    df = (df if hasattr(df, "columns") else df.to_dataframe()).reset_index()
    return names, df


def run_shape(sc):
    p = sc["p"]
    K, C = sc["K"], 360 * sc["K"]
    full = p["shape"] == "checkerboard"
    step = dict(op="shape", p=p, ok=True, names=[], nodes=[])
    try:
        b = boundary(p["x"], p["y"], p["dx"] * (p["nx"] - (not full)), p["dy"] * (p["ny"] - (not full)), K, C)
        par = dict(nx=p["nx"], ny=p["ny"])
        kind = p["shape"].replace("vector_", "")
        given = lambda k: k not in sc["omit"]
        if kind in ("circle", "rectangle") and p["centred"]: par["centre"] = [p["cy"] / K, p["cx"] / K]
        if kind == "circle" and given("radius"): par["radius"] = p["radius"] / K
        if kind == "rectangle" and given("width"): par["width"] = p["width"] / K
        if kind == "rectangle" and given("height"): par["height"] = p["height"] / K
        if kind == "gradient" and given("vertical"): par["vertical"] = p["vertical"]
        if kind == "checkerboard" and given("gridsize"): par["gridsize"] = [p["gx"] / K, p["gy"] / K]
        if "vector" in p["shape"]:
            if given("mu"): par["multiplier_u"] = p["mu"]
            if given("mv"): par["multiplier_v"] = p["mv"]
        elif kind != "checkerboard" and given("mu"):
            par["multiplier"] = p["mu"]
        names, df = deliver(p["shape"], b, par)
        step["names"] = names
        for r in df.to_dict("records"):
            xx, yy = lat_int(r["long"], K), lat_int(r["lat"], K)
            step["nodes"].append([BADINT if xx is None else norm_x(xx, C), BADINT if yy is None else yy, [rat(float(r[n])) for n in names]])
    except Exception as e:
        step.update(ok=False, err=f"{type(e).__name__}: {str(e)[:300]}")
    return dict(K=K, C=C, steps=[step])


def run_field(sc):
    K, C = sc["K"], 360 * sc["K"]
    step = dict(op="field", ok=True, names=[], **{k: sc[k] for k in ("kind", "size", "x", "y", "dx", "dy", "lo", "hi", "wantnames")})
    try:
        b = boundary(sc["x"], sc["y"], sc["dx"] * (sc["size"] - 1), sc["dy"] * (sc["size"] - 1), K, C)
        runs = []
        for seed in (sc["seed"], sc["seed"], sc["seed"] + 1):
            names, df = deliver(sc["loader"], b, dict(sc["params"], seed=seed, size=sc["size"]))
            runs.append([[norm_x(lat_int(r["long"], K) or 0, C), lat_int(r["lat"], K) or 0, [round(1000 * float(r[n])) for n in names]] for r in df.to_dict("records")])
        step.update(names=names, nodes=runs[0], again=runs[1], other=runs[2])
    except Exception as e:
        step.update(ok=False, err=f"{type(e).__name__}: {str(e)[:300]}")
    return dict(K=K, C=C, steps=[step])


def run_any(sc):
    return {"table": run_table, "shape": run_shape, "field": run_field}[sc["op"]](sc)


# ----------------------------------------------------------------------------
def rand_period(rng):
    d = datetime.date(rng.choice([2019, 2020, 2021, 2100]), rng.randrange(1, 13), 1) + datetime.timedelta(days=rng.choice([0, -1, rng.randrange(0, 31)]))
    e = d + datetime.timedelta(days=rng.choice([0, 0, 1, 2, rng.randrange(0, 45), rng.randrange(0, 120)]))
    return [d.year, d.month, d.day], [e.year, e.month, e.day]


def rand_table(rng):
    agg = rng.choice(["MEAN", "MEAN", "MIN", "MAX"])
    K = rng.choice([1, 1, 2]) if agg == "MEAN" else 2
    C = 360 * K
    for _ in range(200):
        nx, ny = rng.randrange(1, 4), rng.randrange(1, 4)
        cw, ch = rng.randrange(1, 30 * K), rng.randrange(1, 20 * K)
        s = rng.random()
        if s < .35:     # around the sectors' borders
            x = rng.choice([-130, -60, -45, 20, 90, 160, -180, 0]) * K - rng.randrange(0, cw * nx + 1)
            y = rng.randrange(-89 * K, 20 * K)
        elif s < .6:    # around the Baltic
            x = rng.choice([12, 32]) * K - rng.randrange(0, cw * nx + 1)
            y = rng.choice([54, 66]) * K - rng.randrange(0, ch * ny + 1)
        elif s < .8:
            x = 180 * K - rng.randrange(0, cw * nx + 1)
            y = rng.choice([-rng.randrange(0, ch * ny + 1), rng.randrange(-89 * K, 70 * K)])
        elif s < .9:    # most of the way round the world, an end on a sector's border
            cw, ch = rng.randrange(70 * K, 120 * K - 1), rng.randrange(1, 6 * K)
            nx = 3
            b = rng.choice([-130, -60, -45, 20, 90, 160]) * K
            x, y = rng.choice([b, b - cw * nx]), rng.randrange(-89 * K, 70 * K)
        else:
            x, y = rng.randrange(-180 * K, 180 * K), rng.randrange(-89 * K, 70 * K)
        x = norm_x(x, C)
        if agg != "MEAN":            # no edge on a border: borders are whole degrees
            if not (x % 2 and y % 2 and cw % 2 == 0 and ch % 2 == 0):
                continue
        if -90 * K <= y and y + ch * ny <= 90 * K and cw * nx < C and cw * ch * 214 * 125 < 2 ** 31 // 5:
            break
    else:
        raise MachineryError("no table scenario")
    a, b = rand_period(rng)
    return dict(op="table", set=rng.choice(TABLES), agg=agg, K=K, grid=[x, y, cw, ch, nx, ny], plain=rng.random() < .5, **{"from": a, "to": b})


def rand_shape(rng, shape):
    K = rng.choice([1, 2, 4])
    C = 360 * K
    nx, ny = rng.randrange(2, 9), rng.randrange(2, 9)
    dx, dy = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    while True:
        x, y = rng.choice([-(dx * nx) // 2, rng.randrange(-180 * K, 180 * K), -180 * K, 180 * K - dx * nx]), rng.choice([-(dy * ny) // 2, rng.randrange(-89 * K, 80 * K)])
        if x + dx * nx <= 180 * K and -90 * K <= y and y + dy * ny <= 90 * K:
            break
    p = dict(shape=shape, nx=nx, ny=ny, dx=dx, dy=dy, x=x, y=y, centred=rng.random() < .6, cx=0, cy=0, radius=K, width=K, height=K, vertical=True, gx=K, gy=K, mu=1, mv=1)
    omit = [k for k in ("radius", "width", "height", "vertical", "gridsize", "mu", "mv") if rng.random() < .3]
    if p["centred"]:
        p["cx"] = rng.choice([0, x + dx * rng.randrange(nx), x + rng.randrange(dx * nx)])
        p["cy"] = rng.choice([0, y + dy * rng.randrange(ny), y + rng.randrange(dy * ny)])
    if "radius" not in omit: p["radius"] = rng.randrange(0, 12)
    if "width" not in omit: p["width"] = rng.randrange(0, 9)
    if "height" not in omit: p["height"] = rng.randrange(0, 9)
    if "vertical" not in omit: p["vertical"] = rng.random() < .5
    if "gridsize" not in omit: p["gx"], p["gy"] = rng.randrange(1, 7), rng.randrange(1, 7)
    if "mu" not in omit: p["mu"] = rng.choice([2, 5, -3, 0, 7])
    if "mv" not in omit: p["mv"] = rng.choice([2, 5, -3, 0, 7])
    if shape == "checkerboard": p["mu"] = 1
    return dict(op="shape", K=K, p=p, omit=omit)


def rand_field(rng):
    K = rng.choice([1, 2])
    kind = rng.choice(["binary", "scalar", "vector"])
    size = rng.randrange(4, 9)
    dx, dy = rng.choice([1, 2]), rng.choice([1, 2])
    x, y = rng.randrange(-180 * K, 180 * K - dx * size), rng.randrange(-89 * K, 89 * K - dy * size)
    par, lo, hi = {"binary": kind == "binary"}, 0, 1
    if kind == "scalar":
        lo, hi = -10, 10
        if rng.random() < .7: lo, hi = rng.choice([(0, 5), (-3, 7), (10, 60)]); par.update(min=lo, max=hi)
        m, o = (rng.choice([2, 1, 5]), rng.choice([0, 3, -100])) if rng.random() < .5 else (1, 0)
        if (m, o) != (1, 0): par.update(multiplier=m, offset=o)
        if rng.random() < .5: par["threshold"] = rng.choice([[0.25, 0.75], [0, 0.5], [0.5, 1]])
        lo, hi = m * lo + o, m * hi + o
    elif kind == "binary":
        if rng.random() < .5: par["threshold"] = rng.choice([0.25, 0.75])
    else:
        lo, hi = 0, 10
        if rng.random() < .7: lo, hi = rng.choice([(0, 5), (3, 7), (10, 12)]); par.update(min=lo, max=hi)
    names = dict(binary=["binary_data"], scalar=["scalar_data"], vector=["uC", "vC"])[kind]
    if rng.random() < .4:
        names = ["p", "q"] if kind == "vector" else ["thing"]
        par["data_name"] = ",".join(names)
    return dict(op="field", kind=kind, loader=dict(binary="binary_grf", scalar="scalar_grf", vector="vector_grf")[kind], K=K, size=size, x=x, y=y, dx=dx, dy=dy,
                lo=1000 * lo, hi=1000 * hi, params=par, seed=rng.randrange(10 ** 6), wantnames=names)


def model_cases(res, step, lat, months):
    r = tlc("BuiltinModel", cfg("BuiltinSpec", dict(Step=step, Lat=lat, Months="{" + ", ".join(map(str, months)) + "}"), ["Whole", "EveryDay", "Between", "Halves", "NextYear", "Emit"]),
            workers=6, timeout=700, heap="6g")
    res.model(f"BuiltinModel/{step}", r)
    out = []
    for m in re.finditer(r'<<\s*"CASE",\s*"(\w+)",\s*(-?\d+),\s*(-?\d+),\s*(\d+),\s*(\d+),\s*<<(.*?)>>,\s*<<(.*?)>>\s*>>', r["out"], re.S):
        out.append((m.group(1),) + tuple(int(m.group(i)) for i in range(2, 6)) + tuple([int(v) for v in m.group(i).split(",")] for i in (6, 7)))
    if len(out) < 100:
        raise MachineryError("too few cases")
    return sorted(out)


def check_builtin(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    rng = random.Random(seed)
    cases = model_cases(res, 15, 6, [1, 2, 5, 8, 11]) if thorough else model_cases(res, 30, 3, [2])
    res.extra["cases_enumerated_by_tlc"] = len(cases)
    rng.shuffle(cases)
    cases = cases[:8000 if thorough else 500]
    scs = [dict(op="table", set=c[0], agg="MEAN", K=1, grid=[c[1], c[2], c[3], c[4], 1, 1], plain=True, **{"from": c[5], "to": c[6]}) for c in cases]
    scs += [rand_table(rng) for _ in range(5000 if thorough else 350)]
    scs += [rand_shape(rng, s) for s in SHAPES for _ in range(700 if thorough else 60)]
    scs += [rand_field(rng) for _ in range(2000 if thorough else 150)]
    traces = []
    for sc, (s, tr) in zip(scs, run_pool(run_any, scs, 120)):
        traces.append(tr if s == "ok" else dict(K=1, C=360, steps=[dict(op="timeout", ok=False, err="timeout")]))
    v = validate("BuiltinTrace", traces, cost=lambda t: 1 + len(t["steps"][0].get("cells", [])) * 3 + len(t["steps"][0].get("nodes", [])) // 10)
    res.judged(traces, *v, scs)
    return res
