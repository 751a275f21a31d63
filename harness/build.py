"""Building meshes from data: P03-P08, P17-P19 (trace specification BuildTrace).

A scenario is a plain dict: grid, maxd, sources.  run_build() writes the data
files, lets MeshBuilder build the mesh and records what came out; the same
scenario in lattice integers is the input of the specification."""
import os, json, math, random, tempfile, shutil, copy
from fractions import Fraction
from common import *
from mesh import Grid, obs_json, NOOBS, err, GEN_GRIDS

NAV = 888888
PERIODS = [("2020-03-17", 1), ("2019-12-27", 1), ("2020-02-24", 1), ("2021-02-24", 1), ("1999-11-15", 9), ("2017-06-30", 123), ("2024-12-31", 1)]


def day(t, s={}):
    """the configured period is day 1..10 of the lattice; what a lattice day is differs between scenarios"""
    import datetime
    d0, step = s.get("period", PERIODS[0])
    return (datetime.date.fromisoformat(d0) + datetime.timedelta(days=step * (t - 1))).isoformat()


def vary(sc, seed):
    """the period and the unit of the values (a power of two, so that nothing is lost in it) are of no account"""
    rng = random.Random(seed)
    if rng.random() < .5:
        sc["period"] = rng.choice(PERIODS)
    for s in sc["sources"]:
        if "period" in sc:
            s["period"] = sc["period"]
        key = s["names"]
        all_ = [q for q in sc["sources"] if q["names"] == key]
        if "unit" in s or any(q["agg"] == "COUNT" or q.get("bool") or q["loader"] == "scotland_ncmpa" for q in all_):
            continue
        u = rng.choice([0, 0, -12, -24, 14])
        if u == -24 and not read_exactly([v * 2.0 ** u for q in all_ if "csv" in q["loader"] for p in q["pts"] for v in p[3:]]):
            u = -12                                       # long decimals are not read exactly from tables
        if u:
            for q in all_:
                q["unit"] = u
    return sc


def read_exactly(xs):
    import io, pandas as pd
    xs = sorted(set(xs))
    return not xs or pd.read_csv(io.StringIO("v\n" + "\n".join(map(repr, xs))))["v"].tolist() == xs


def vscale(s, v):
    """a value of the specification as the files hold it"""
    return v * 2.0 ** s["unit"] if "unit" in s else v


def rat(v, squared=False, maxden=3000):
    """observed value -> [p, q] in lowest terms; [0,0] missing; [BADINT,1] not a rational we could expect"""
    if isinstance(v, bool):
        return [int(v), 1]
    if v is None:
        return [BADINT, 1]
    try:
        v = float(v)
    except (TypeError, ValueError):
        return [BADINT, 1]
    if math.isnan(v):
        return [0, 0]
    if not math.isfinite(v) or abs(v) > 1e6:
        return [BADINT, 1]
    if squared:
        if v < -1e-12:
            return [BADINT, 1]
        v = v * v
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > 1e-9 * max(1, abs(v)) or abs(f.numerator) > 2 * 10 ** 9:
        return [BADINT, 1]
    return [f.numerator, f.denominator]


# --------------------------------------------------------------------------
# writing data
def lon_out(x, g, style):
    """longitude of lattice x as found in files; style: 'std' (-180,180], '360' [0,360)"""
    d = Fraction(norm_x(x, g.C)) * g.u
    if d == -180:
        d = Fraction(180)
    if style == "360" and d < 0:
        d += 360
    return float(d)


def val(v):
    return float("nan") if v == NAV else v


def write_csv(path, rows, cols):
    with open(path, "w") as f:
        f.write(",".join(cols) + "\n")
        for r in rows:
            f.write(",".join("" if (isinstance(v, float) and math.isnan(v)) else (repr(v) if isinstance(v, float) else str(v)) for v in r) + "\n")


def rows_of(s, g):
    rows = []
    for p in s["pts"]:
        r = [float(Fraction(p[1]) * g.u), lon_out(p[0], g, "std")]
        if s.get("west180") and r[1] == 180:
            r[1] = -180.0
        if s["timed"]:
            r.append(day(p[2], s))
        r += [vscale(s, val(v)) for v in p[3:]]
        rows.append(r)
    return rows


def grid_dataset(s, g, names, lat="lat", lon="long", time="time", style="std", dtype="float64"):
    """gridded source: the points must form a full grid"""
    import numpy as np, xarray as xr
    xs = sorted({p[0] for p in s["pts"]}, key=lambda x: lon_out(x, g, style))
    ys = sorted({p[1] for p in s["pts"]})
    ts = sorted({p[2] for p in s["pts"]}) if s["timed"] else [None]
    nv = len(names)
    arr = np.full((nv, len(ts), len(ys), len(xs)), np.nan, dtype=dtype)
    ix, iy = {x: i for i, x in enumerate(xs)}, {y: i for i, y in enumerate(ys)}
    it = {t: i for i, t in enumerate(ts)}
    for p in s["pts"]:
        for k in range(nv):
            arr[k, it[p[2] if s["timed"] else None], iy[p[1]], ix[p[0]]] = vscale(s, val(p[3 + k]))
    dims = [lat, lon]
    coords = {lat: [float(Fraction(y) * g.u) for y in ys], lon: [lon_out(x, g, style) for x in xs]}
    if s["timed"]:
        dims = [time] + dims
        coords[time] = np.array([day(t, s) for t in ts], dtype="datetime64[ns]")
    else:
        arr = arr[:, 0]
    # the order of a file's axes is of no account
    rng = random.Random(len(s["pts"]) * 31 + sum(xs))
    perm = list(range(len(dims)))
    if rng.random() < .4:
        rng.shuffle(perm)
    order = list(coords)
    rng.shuffle(order)
    return xr.Dataset({n: ([dims[j] for j in perm], arr[k].transpose(perm)) for k, n in enumerate(names)}, coords={c: coords[c] for c in order})


def poly_wkt(rects, g):
    from shapely.geometry import box
    from shapely.ops import unary_union
    return unary_union([box(*(float(Fraction(v) * g.u) for v in (r[0], r[1], r[0] + r[2], r[1] + r[3]))) for r in rects])


def write_source(s, g, d, i):
    """returns (loader name, params)"""
    par = {}
    k = s["loader"]
    if k in ("scalar_csv", "vector_csv"):
        cols = ["lat", "long"] + (["time"] if s["timed"] else []) + s["names"]
        rows = rows_of(s, g)
        if "spread" in s:          # rows by file, in order
            par["files"] = []
            for j, rs in enumerate(r for r in s["spread"] if r):
                f = os.path.join(d, f"s{i}_{j}.csv")
                write_csv(f, [rows[r] for r in rs], cols)
                par["files"].append(f)
            return k, finish_params(s, par)
        if not rows:               # a table with data, but none in the region
            rows = [[89.5 if g.y * g.u < 0 else -89.5, 10.25] + ([day(1, s)] if s["timed"] else []) + [1.0] * len(s["names"])]
        if "perm" in s:
            random.Random(s["perm"]).shuffle(rows)
        parts = s.get("parts", 1)
        files = []
        for j in range(parts):
            f = os.path.join(d, f"s{i}_{j}.csv")
            write_csv(f, rows[j::parts], cols)
            files.append(f)
        par["files"] = files
    elif k in ("gebco", "bsose_sic", "northsea_currents", "baltic_currents"):
        if k == "gebco":
            ds = grid_dataset(s, g, ["elevation"], lon="lon")
        elif k == "bsose_sic":
            ds = grid_dataset(s, g, ["SIarea"], lat="YC", lon="XC", style=s.get("style", "std"))
            par["units"] = "fraction"
        elif k == "northsea_currents":
            ds = grid_dataset(s, g, ["U", "V"], lon="lon", time="times")
        else:
            s2 = dict(s, timed=True, pts=[[p[0], p[1], 1] + p[3:] for p in s["pts"]])
            ds = grid_dataset(s2, g, ["uo", "vo"], lat="latitude", lon="longitude").expand_dims({"depth": [0.5]}, axis=1)
        par["files"] = []
        for j, part in enumerate(tiles(ds, s.get("tiles"))):       # one file, or tiles of the grid in several
            f = os.path.join(d, f"s{i}_{j}.nc")
            part.to_netcdf(f)
            par["files"].append(f)
        par["data_name"] = ",".join(s["names"])
    elif k == "era5_wind":                 # one file a day, latitudes descending, longitudes from 0 to 360
        ds = grid_dataset(s, g, ["u10", "v10"], lat="latitude", lon="longitude", style=s.get("style", "std"))
        ds = ds.isel(latitude=slice(None, None, -1))
        e = os.path.join(d, f"s{i}_era5")
        os.makedirs(e, exist_ok=True)
        for t in ds.time.values:
            ds.sel(time=[t]).to_netcdf(os.path.join(e, "era5_wind_%s.nc" % str(t)[:10]))
        par["files"] = sorted(os.path.join(e, f) for f in os.listdir(e))
        par["data_name"] = ",".join(s["names"])
    elif k == "lut_csv":
        parts = s.get("parts", 1)
        par["files"] = []
        for j in range(parts):
            f = os.path.join(d, f"s{i}_{j}.csv")
            with open(f, "w") as h:
                h.write((s["names"][0] + ",geometry" if s.get("turned") else "geometry," + s["names"][0]) + "\n")
                for p in s["polys"][j::parts]:
                    c = ['"%s"' % poly_wkt(p["rects"], g).wkt, str(vscale(s, p["v"]))]
                    h.write(",".join(c[::-1] if s.get("turned") else c) + "\n")
            par["files"].append(f)
    elif k in ("lut_shapefile", "scotland_ncmpa"):
        import geopandas
        parts = s.get("parts", 1)
        par["files"] = []
        for j in range(parts):
            f = os.path.join(d, f"s{i}_{j}." + ("shp" if k == "lut_shapefile" or j else "geojson"))
            geopandas.GeoDataFrame({"n": range(len(s["polys"][j::parts]))}, geometry=[poly_wkt(p["rects"], g) for p in s["polys"][j::parts]], crs="EPSG:4326").to_file(f)
            par["files"].append(f)
        if k == "scotland_ncmpa" and s["names"][0] != "exclusion_zone":
            par["data_name"] = s["names"][0]
        if k == "lut_shapefile":
            par["data_name"] = s["names"][0]
            v = s["polys"][0]["v"]
            par["value"] = bool(v) if s.get("bool") else vscale(s, v)
    elif k == "lut_geojson":
        from shapely.geometry import mapping
        parts = s.get("parts", 1)
        par["files"] = []
        for j in range(parts):
            f = os.path.join(d, f"s{i}_{j}.json")
            json.dump({"type": "FeatureCollection", "features": [
                {"type": "Feature", "properties": {"n": n}, "geometry": mapping(poly_wkt(p["rects"], g))} for n, p in enumerate(s["polys"][j::parts])]}, open(f, "w"))
            par["files"].append(f)
        par["data_name"] = s["names"][0]
        v = s["polys"][0]["v"]
        par["value"] = bool(v) if s.get("bool") else vscale(s, v)
    else:
        raise MachineryError("loader " + k)
    return k, finish_params(s, par)


def tiles(ds, dim):
    """dim: index of the coordinate to cut along, or None"""
    if dim is None:
        return [ds]
    c = sorted(ds.coords)[dim % len(ds.coords)]
    n = ds.sizes[c]
    if n < 2:
        return [ds]
    k = n // 2
    return [ds.isel({c: slice(k, None)}), ds.isel({c: slice(0, k)})]


def finish_params(s, par):
    name = ",".join(s["names"])
    if s["agg"] != "MEAN" or not s.get("agg_default"):
        par["aggregate_type"] = s["agg"]
    if s["ds"] != [1, 1]:
        par["downsample_factors"] = list(s["ds"])
    if s["fill"][0] != "parent" or s.get("fill_spelt"):
        f = s.get("fill_text", s["fill"][0])
        if "unit" in s and f not in ("parent", "zero", "nan"):
            f = type(f)(vscale(s, float(f)))
        par["value_fill_types"] = f
    if s["conds"]:
        par["splitting_conditions"] = [{name: cond_json(c, s)} for c in s["conds"]]
    return par


def fl(q):
    return q[0] if q[1] == 1 else q[0] / q[1]


def cond_json(c, s={}):
    if c["type"] == "boundary":
        return {"boundary": c["boundary"]} if not c.get("omit") else {}
    b = dict(threshold=vscale(s, fl(c["thr"])), lower_bound=fl(c["lb"]), upper_bound=fl(c["ub"]), split_lock=c["lock"])
    if c["type"] == "scalar":
        return b
    if c.get("omit_lock"):
        del b["split_lock"]
    return {c["type"]: b}


def config_of(sc, g, loaded):
    if sum(len(s["pts"]) for s in sc["sources"]) % 4 == 1:
        # parameters as an earlier build with another minimum left them in its stored configuration
        loaded = [(k, dict(p, min_dp=5 if sc["minpts"] < 5 else 1, dataloader_name=k)) for k, p in loaded]
    cfgd = g.config([dict(loader=k, params=p) for k, p in loaded], depth=sc["maxd"], mindp=sc["minpts"])
    cfgd["region"].update(start_time=day(1, sc), end_time=day(10, sc))
    return cfgd


def spec_sources(sc):
    out = []
    for s in sc["sources"]:
        out.append(dict(kind="lut" if s["loader"] in LUTS else "pts", vec=len(s["names"]) == 2, grid=s["grid"], timed=s["timed"],
                        minpts=sc["minpts"], agg=s["agg"], fill=s["fill"], ds=s["ds"], pts=s["pts"],
                        conds=[{k: v for k, v in c.items() if k in ("type", "thr", "lb", "ub", "lock", "boundary")} for c in s["conds"]],
                        polys=s.get("polys", []), outside=s.get("outside", NAV)))
    return out


def spec_vars(sc):
    """variables with the sources supplying them; 'at': position in the value vectors"""
    vs, names, at = [], [], 1
    for i, s in enumerate(sc["sources"], 1):
        key = ",".join(s["names"])
        old = next((v for v in vs if v["name"] == key), None)
        if old:
            old["srcs"].append(i)
            continue
        vs.append(dict(name=key, vec=len(s["names"]) == 2, srcs=[i], at=at, sq=s["agg"] == "STD", unit=s.get("unit", 0),
                       maxden=70000 if s["loader"] in LUTS else 3000))
        names += s["names"]
        at += len(s["names"])
    return vs, names


def unscale(v, unit):
    return v / 2.0 ** unit if unit and isinstance(v, (int, float)) and not isinstance(v, bool) else v


def observe(j, sc, g):
    o = obs_json(j, g)
    if not o["lattice"]:
        return dict(lattice=False, cells=[], vals=[]), o
    vs, names = spec_vars(sc)
    vals = []
    for c in j["cellboxes"]:
        row = []
        for v in vs:
            for n in v["name"].split(","):
                row.append(rat(unscale(c[n], v["unit"]), v["sq"], v["maxden"]) if n in c else [BADINT, 1])
        vals.append(row)
    return dict(lattice=True, cells=o["cells"], vals=vals), o


def build_mesh(sc, d):
    """the mesh as JSON (through json, as a file would hold it)"""
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    g = Grid(*sc["grid"])
    loaded = [write_source(s, g, d, i) for i, s in enumerate(sc["sources"])]
    n_add = sc.get("added", 0)
    if n_add:
        from meshiphi.dataloaders.factory import DataLoaderFactory as F
        from meshiphi.mesh_generation.boundary import Boundary
        b = MeshBuilder(config_of(sc, g, loaded[:-n_add]))
        for k, p in loaded[-n_add:]:
            rg = config_of(sc, g, [])["region"]
            bd = Boundary([rg["lat_min"], rg["lat_max"]], [rg["long_min"], rg["long_max"]], [rg["start_time"], rg["end_time"]])
            cls = type(F.get_dataloader(k, bd, json.loads(json.dumps(p)), min_dp=sc["minpts"]))
            r = b.add_dataloader(cls, dict(p, min_dp=sc["minpts"]), min_dp=sc["minpts"])
            if isinstance(r, MeshBuilder):
                b = r
    else:
        b = MeshBuilder(config_of(sc, g, loaded))
    return json.loads(json.dumps(b.build_environmental_mesh().to_json()))


def run_build(sc):
    g = Grid(*sc["grid"])
    vs, names = spec_vars(sc)
    src = spec_sources(sc)
    trace = dict(C=g.C, base=g.base, maxd=sc["maxd"], tlo=1, thi=10, sources=src, vars=vs,
                 maxconds=max([1] + [len(s["conds"]) for s in src]), steps=[])
    mt = dict(C=g.C, base=g.base, maxd=sc["maxd"], tiles=True, grid=False, steps=[])
    d = tempfile.mkdtemp(prefix="b_", dir=scratch())
    try:
        j = build_mesh(sc, d)
        o, mo = observe(j, sc, g)
        trace["steps"].append(dict(ok=True, obs=o))
        mt["steps"].append(dict(op="init", ok=True, obs=mo))
    except Exception as e:
        trace["steps"].append(dict(ok=False, err=err(e), obs=dict(lattice=True, cells=[], vals=[])))
        mt["steps"].append(dict(op="init", ok=False, err=err(e), obs=NOOBS))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return trace, mt


def timeout_trace(sc):
    g = Grid(*sc["grid"])
    return (dict(C=g.C, base=g.base, maxd=0, tlo=1, thi=10, sources=[], vars=[], maxconds=1,
                 steps=[dict(ok=False, err="timeout", obs=dict(lattice=True, cells=[], vals=[]))]),
            dict(C=g.C, base=g.base, maxd=9, tiles=True, grid=False, steps=[dict(op="init", ok=False, err="timeout", obs=NOOBS)]))


def collect_builds(scen, limit=60):
    out = []
    for sc, (st, tr) in zip(scen, run_pool(run_build, scen, limit)):
        out.append(tr if st == "ok" else timeout_trace(sc))
    return [t[0] for t in out], [t[1] for t in out]


def build_cost(t):
    pts = sum(len(s["pts"]) + 40 * len(s["polys"]) for s in t["sources"]) + 1
    return pts * (len(t["steps"][0]["obs"]["cells"]) + 4)


# --------------------------------------------------------------------------
# scenario generation
#  x, y, w, h, nx, ny, unit : cells 16 units wide -> 4 refinements stay on the lattice
BUILD_GRIDS = [
    ("regional", (-32, -64, 16, 16, 2, 2, "1/2")),
    ("regional wide", (16, 16, 16, 8, 3, 1, "1/4")),
    ("equator", (-16, -8, 16, 8, 2, 2, "1")),
    ("antimeridian edge", (344, -64, 16, 16, 2, 2, "1/2")),
    ("antimeridian straddling", (172, 16, 16, 16, 2, 1, "1")),
    ("touching 180", (148, -16, 16, 16, 2, 2, "1")),
    ("touching -180", (-180, -16, 16, 16, 2, 1, "1")),
    ("global", (-32, -16, 16, 16, 4, 2, "45/8")),
    ("single cell", (32, 32, 16, 16, 1, 1, "1/2")),
    ("fine cells off the degree", (-6176, -3088, 16, 16, 2, 1, "5/256")),
    ("fine cells at the antimeridian", (9200, -3100, 16, 16, 2, 1, "5/256")),
    ("up to the pole", (-32, 148, 16, 16, 2, 2, "1/2")),
    ("down to the pole", (24, -180, 16, 16, 2, 2, "1/2")),
]
SEAM = [g for g in BUILD_GRIDS if g[0] in ("antimeridian edge", "antimeridian straddling", "fine cells at the antimeridian", "touching 180", "touching -180")]
PLAIN = [g for g in BUILD_GRIDS if g[0] in ("regional", "regional wide", "equator", "single cell")]


def xrange_(g, margin=4):
    """x coordinates in and around the region, never exactly on -180 (there 180 is meant)"""
    lo, hi = g.x - margin, g.x + g.nx * g.w + margin
    if g.wraps():
        lo, hi = g.x, g.x + g.nx * g.w - 1
    return [norm_x(x, g.C) for x in range(lo, hi + 1)]


def yrange_(g, margin=4):
    return [y for y in range(g.y - margin, g.y + g.ny * g.h + margin + 1) if abs(y * g.u) <= 90]


def missing(rng, vmax, vec):
    """a missing value; of a vector one component may be missing"""
    if not vec:
        return [NAV]
    k = rng.random()
    return [NAV, NAV] if k < .5 else [NAV, rng.randrange(-vmax, vmax + 1)] if k < .75 else [rng.randrange(-vmax, vmax + 1), NAV]


def rand_points(g, rng, n, vmax, nan=0.0, vec=False, timed=False, cluster=True, unique=False):
    xs, ys = xrange_(g), yrange_(g)
    pts, seen = [], set()
    cx, cy = rng.choice(xs), rng.choice(ys)
    sp = rng.choice([2, 4, 8])
    for _ in range(n):
        if cluster and rng.random() < .5:
            x, y = norm_x(cx + rng.randrange(-sp, sp + 1), g.C), cy + rng.randrange(-sp, sp + 1)
            if y not in ys or (not g.wraps() and x not in xs):
                continue
        else:
            x, y = rng.choice(xs), rng.choice(ys)
        if rng.random() < .35:      # on cell edges
            x = norm_x(g.x + ((x - g.x) // 4) * 4, g.C)
        if rng.random() < .35:
            y = g.y + ((y - g.y) // 4) * 4
            if abs(y * g.u) > 90:
                continue
        if unique and (x, y) in seen:
            continue
        seen.add((x, y))
        t = rng.choice([0, 1, 1, 2, 5, 9, 10, 10, 11, 14]) if timed else 0
        if rng.random() < nan:
            v = missing(rng, vmax, vec)
        else:
            v = [rng.randrange(-vmax, vmax + 1) for _ in range(2 if vec else 1)]
        pts.append([x, y, t] + v)
    return pts


def rand_grid_points(g, rng, maxn, vmax, nan=0.0, vec=False, timed=False, seam=True, times=None):
    """a full grid of nodes (not necessarily equidistant), sorted; seam: may have nodes at 180 degrees"""
    xs_all = sorted({x for x in xrange_(g) if seam or x != -g.C // 2}, key=lambda x: lon_out(x, g, "std"))
    ys_all = yrange_(g)
    ts = (times or sorted(rng.sample([0, 1, 4, 10, 11], rng.randrange(1, 4)))) if timed else [0]
    k = max(2, int(math.sqrt(maxn / len(ts))))
    nx, ny = rng.randrange(2, k + 2), rng.randrange(2, k + 2)
    def pick(a, n):
        if rng.random() < .5:                          # regular
            st = max(1, len(a) // n)
            off = rng.randrange(st)
            return a[off::st][:n]
        return sorted(rng.sample(range(len(a)), min(n, len(a)))) and [a[i] for i in sorted(rng.sample(range(len(a)), min(n, len(a))))]
    xs, ys = pick(xs_all, nx), pick(ys_all, ny)
    pts = []
    for t in ts:
        for y in ys:
            for x in xs:
                v = missing(rng, vmax, vec) if rng.random() < nan else [rng.randrange(-vmax, vmax + 1) for _ in range(2 if vec else 1)]
                pts.append([x, y, t] + v)
    return pts


LUTS = ("lut_csv", "lut_geojson", "lut_shapefile", "scotland_ncmpa")


def source(loader, names, pts=(), agg="MEAN", fill=("parent", 0, 1), conds=(), timed=False, grid=None, ds=(1, 1), **kw):
    if grid is None:
        grid = loader not in ("scalar_csv", "vector_csv") + LUTS
    return dict(loader=loader, names=list(names), pts=[list(p) for p in pts], agg=agg, fill=list(fill), conds=list(conds), timed=timed,
                grid=grid, ds=list(ds), **kw)


BOUNDS = [((0, 1), (1, 1)), ((1, 10), (9, 10)), ((1, 4), (3, 4)), ((1, 2), (1, 1)), ((0, 1), (1, 2)), ((1, 3), (2, 3)), ((1, 5), (4, 5)),
          ((0, 1), (1, 4)), ((3, 10), (7, 10)), ((1, 4), (1, 2))]


def rand_cond(rng, vmax, typ="scalar"):
    lb, ub = rng.choice(BOUNDS)
    thr = [rng.randrange(-vmax, vmax + 1), 1]
    if typ == "scalar" and rng.random() < .3:
        thr = [2 * thr[0] + 1, 2]
    return dict(type=typ, thr=thr, lb=list(lb), ub=list(ub), lock=rng.random() < .5)


SCALAR_AGGS = ["MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"]


def rand_fill(rng):
    return rng.choice([(("parent", 0, 1), {}), (("parent", 0, 1), {}), (("parent", 0, 1), dict(fill_spelt=True)),
                       (("value", 0, 1), dict(fill_text="zero")), (("value", 7, 2), dict(fill_text=3.5)), (("value", -4, 1), dict(fill_text="-4")),
                       (("value", 0, 1), dict(fill_text=0)), (("value", 25, 2), dict(fill_text="12.5")), (("nan", 0, 1), dict(fill_text="nan"))])


def rand_scalar(g, rng, name, n=40, vmax=12, conds=None, nan=None, agg=None, csv_only=False):
    agg = agg or rng.choice(SCALAR_AGGS)
    nan = (rng.choice([0, 0, .2, .6]) if nan is None else nan) if agg != "COUNT" else 0
    vm = 6 if agg == "STD" else vmax
    timed = rng.random() < .4
    if csv_only or rng.random() < .6:
        pts = rand_points(g, rng, rng.randrange(1, n), vm, nan, timed=timed)
        if not pts:
            pts = [[g.x + 1, g.y + 1, 1, 3]]
        s = source("scalar_csv", [name], pts, agg, timed=timed, parts=rng.choice([1, 1, 2]) if len(pts) > 1 else 1)
    else:
        k = rng.choice(["gebco", "bsose_sic"])
        pts = rand_grid_points(g, rng, n, vm, nan, timed=timed, seam=k != "bsose_sic")
        s = source(k, [name], pts, agg, timed=timed, style=rng.choice(["std", "360"]))
    if agg == "MEAN" and rng.random() < .4:
        s["agg_default"] = True
    f, kw = rand_fill(rng)
    s["fill"] = list(f)
    s.update(kw)
    nc = rng.choice([0, 1, 1, 2]) if conds is None else conds
    s["conds"] = [rand_cond(rng, vm) for _ in range(nc)]
    return s


def base_scenario(rng, i, grids=BUILD_GRIDS, maxd=None):
    name, gr = grids[i % len(grids)]
    return dict(grid=gr, kind=name, maxd=maxd if maxd is not None else rng.choice([1, 2, 2, 3]), minpts=rng.choice([0, 1, 1, 2, 3, 5]), sources=[]), Grid(*gr)


def gen_scalar(n, seed):
    """P03-P06: one to three scalar sources"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g = base_scenario(rng, i)
        for k in range(rng.choice([1, 1, 2, 3])):
            same = k > 0 and rng.random() < .35
            nm = sc["sources"][0]["names"][0] if same else f"v{k}"
            s = rand_scalar(g, rng, nm, conds=rng.choice([0, 1, 1, 2]))
            if same:                               # STD is observed squared: keep the aggregates comparable
                if (sc["sources"][0]["agg"] == "STD") != (s["agg"] == "STD"):
                    s["agg"] = sc["sources"][0]["agg"]
                    if s["agg"] == "COUNT":
                        s["agg"] = "MAX"
            sc["sources"].append(s)
        out.append(sc)
    return out


def squared_fill(sc):
    """STD values are compared squared, so are fill values"""
    for s in sc["sources"]:
        if s["agg"] == "STD" and s["fill"][0] == "value":
            if s["fill"][1] < 0:                      # a negative fill would square ambiguously
                s["fill"], s["fill_text"] = ["value", 0, 1], "zero"
            else:
                s["fill"] = ["value", s["fill"][1] ** 2, s["fill"][2] ** 2]
    return sc



# --------------------------------------------------------------------------
# configurations enumerated by TLC (spec/BuildModel.tla)
def from_spec(conf, fam, rng=None):
    b = conf["base"]
    sc = dict(grid=(b["x"], b["y"], b["w"], b["h"], b["nx"], b["ny"], str(Fraction(360, conf["C"]))), kind="enumerated " + fam,
              maxd=conf["maxd"], minpts=conf["sources"][0]["minpts"], sources=[])
    name = {}
    for m, v in enumerate(conf["vars"]):
        for i in v["srcs"]:
            name[i] = [f"u{m}", f"w{m}"] if v["vec"] else [f"v{m}"]
    for i, s in enumerate(conf["sources"], 1):
        if s["kind"] == "lut":
            loader = "lut_csv"
        elif s["vec"]:
            loader = "baltic_currents" if s["grid"] else "vector_csv"
        else:
            loader = "gebco" if s["grid"] else "scalar_csv"
        kw = dict(polys=s["polys"])
        f = s["fill"]
        if f[0] != "parent":
            kw["fill_text"] = "nan" if f[0] == "nan" else f[1] / f[2]
        sc["sources"].append(source(loader, name[i], s["pts"], s["agg"], f, s["conds"], ds=s["ds"], **kw))
    return sc


def enumerated(res, fams):
    """fams: list of (family, wrap).  Model-check each and return the configurations as scenarios."""
    jobs = [(("BuildModel", cfg("BSpec", dict(Family=f'"{f}"', Wrap=w), ["TilesInv", "OncePoint", "Confluent", "Emit"])), dict(timeout=700)) for f, w in fams]
    out = []
    for (f, w), r in zip(fams, tlc_many(jobs)):
        res.model(f"BuildModel/{f}/{w}", r)
        hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
        if len(hs) < 100:
            raise MachineryError(f"only {len(hs)} configurations for {f}")
        out += [from_spec(h, f"{f}/{w}") for h in hs]
    res.extra["configurations_enumerated_by_tlc"] = res.extra.get("configurations_enumerated_by_tlc", 0) + len(out)
    return out


# --------------------------------------------------------------------------
def gen_place(n, seed):
    """P04: many points, COUNT and MAX, tables and grids, with time; another source does the splitting"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g = base_scenario(rng, i, maxd=rng.choice([1, 2, 3]))
        sc["minpts"] = 1
        sc["sources"].append(splitter(g, rng, "split"))
        for k in range(rng.choice([1, 2])):
            timed = rng.random() < .5
            r = rng.random()
            vec = rng.random() < .25
            if r < .5:
                pts = rand_points(g, rng, rng.randrange(2, 60), 9, vec=vec, timed=timed) or [[g.x + 1, g.y + 1, 1, 3] + ([4] if vec else [])]
                ld = "vector_csv" if vec else "scalar_csv"
            elif vec:
                pts = rand_grid_points(g, rng, 50, 9, vec=True, timed=timed)
                ld = "northsea_currents" if timed else "baltic_currents"
            else:
                ld = rng.choice(["gebco", "bsose_sic"])
                pts = rand_grid_points(g, rng, 50, 9, timed=timed, seam=ld == "gebco")
            nm = [f"u{k}", f"w{k}"] if vec else [f"v{k}"]
            agg = "COUNT" if rng.random() < .7 else "MAX"
            sc["sources"].append(source(ld, nm, pts, agg, ("nan", 0, 1), timed=timed, fill_text="nan"))
            if vec and timed and ld == "baltic_currents":
                sc["sources"][-1]["timed"] = False
        out.append(sc)
    return out


def splitter(g, rng, name, depthy=True):
    """a tabular source whose heterogeneous condition splits around clusters of points"""
    pts = []
    for _ in range(rng.randrange(1, 4)):
        cx, cy = rng.choice([x for x in range(g.x + 1, g.x + g.nx * g.w)]), rng.choice(range(g.y + 1, g.y + g.ny * g.h))
        for d in range(rng.randrange(2, 5)):
            x, y = cx + rng.randrange(-2, 3), cy + rng.randrange(-2, 3)
            if abs(y * g.u) <= 90:
                pts.append([norm_x(x, g.C), y, 0, rng.choice([0, 9])])
    pts = pts or [[norm_x(g.x + 1, g.C), g.y + 1, 0, 0]]
    return source("scalar_csv", [name], pts, "MAX", conds=[dict(type="scalar", thr=[4, 1], lb=[0, 1], ub=[1, 1], lock=False)])


def gen_agg(n, seed, aggs=SCALAR_AGGS):
    """P05/P06: values under refinement"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g = base_scenario(rng, i, maxd=rng.choice([0, 1, 2, 3]))
        sc["sources"].append(splitter(g, rng, "split"))
        for k in range(rng.choice([1, 2, 3])):
            same = k > 0 and rng.random() < .4
            nm = sc["sources"][1]["names"][0] if same else f"v{k}"
            s = rand_scalar(g, rng, nm, n=50, conds=0, agg=rng.choice(aggs))
            if same and (sc["sources"][1]["agg"] == "STD") != (s["agg"] == "STD"):
                continue
            sc["sources"].append(s)
        out.append(sc)
    return out


def gen_vector(n, seed):
    """P07 (and vector fills of P06)"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g = base_scenario(rng, i, maxd=rng.choice([0, 1, 2, 3]))
        sc["sources"].append(splitter(g, rng, "split"))
        for k in range(rng.choice([1, 2])):
            agg = rng.choice(["MEAN", "MIN", "MAX", "STD", "COUNT", "MIN", "MAX"])
            nan = 0 if agg == "COUNT" else rng.choice([0, 0, .3])
            timed = rng.random() < .4
            r = rng.random()
            nm = [f"u{k}", f"w{k}"]
            if r < .6:
                pts = rand_points(g, rng, rng.randrange(1, 45), 6, nan, vec=True, timed=timed) or [[norm_x(g.x + 1, g.C), g.y + 1, 1, 3, 4]]
                s = source("vector_csv", nm, pts, agg, timed=timed, parts=rng.choice([1, 2, 3]) if len(pts) > 3 else 1)
            elif timed and rng.random() < .5:
                s = source("era5_wind", nm, rand_grid_points(g, rng, 40, 6, nan, vec=True, timed=True, seam=False, times=sorted({rng.choice([1, 4, 10])} | set(rng.sample([0, 1, 4, 10, 11], rng.randrange(0, 3))))),
                           agg, timed=True, style=rng.choice(["std", "360"]))
            elif timed:
                s = source("northsea_currents", nm, rand_grid_points(g, rng, 40, 6, nan, vec=True, timed=True), agg, timed=True)
            else:
                s = source("baltic_currents", nm, rand_grid_points(g, rng, 40, 6, nan, vec=True), agg)
            f, kw = rand_fill(rng)
            s["fill"] = list(f)
            s.update(kw)
            sc["sources"].append(s)
        out.append(sc)
    return out


def gen_curl(n, seed):
    """P19: full grids of vectors, as tables and as grids"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g = base_scenario(rng, i, maxd=rng.choice([1, 2, 3]))
        sc["minpts"] = rng.choice([1, 1, 2, 4, 5, 9])
        m = rng.choice([2, 3, 4, 6])
        pts = rand_grid_points(g, rng, 70, m, vec=True)
        xs, ys = len({p[0] for p in pts}), len({p[1] for p in pts})
        if xs > 12 or ys > 12:
            pts = rand_grid_points(g, rng, 30, m, vec=True)
        if rng.random() < .5:                  # smooth-ish fields
            a, b, c, d = (rng.randrange(-1, 2) for _ in range(4))
            xi = {x: k for k, x in enumerate(sorted({p[0] for p in pts}, key=lambda x: (x - g.x) % g.C))}
            yi = {y: k for k, y in enumerate(sorted({p[1] for p in pts}))}
            pts = [[p[0], p[1], 0, max(-6, min(6, a * yi[p[1]] + b * xi[p[0]])), max(-6, min(6, c * xi[p[0]] + d * yi[p[1]] + (p[4] if rng.random() < .2 else 0)))] for p in pts]
        conds = []
        for _ in range(rng.choice([1, 1, 2])):
            c = rand_cond(rng, 4, rng.choice(["curl", "dmag"]))
            if c["type"] == "dmag":
                c["thr"] = [13 * rng.randrange(0, 6) + rng.randrange(1, 13), 13]
            elif rng.random() < .5:
                c["thr"] = [2 * c["thr"][0] + 1, 4]
            c["omit_lock"] = (not c["lock"]) and rng.random() < .5
            conds.append(c)
        if all(c["type"] == "dmag" for c in conds) and rng.random() < .5:
            # missing vectors: whether they count towards the minimum differs between tables and grids
            sc["minpts"] = 1
            pts = [p[:3] + [NAV, NAV] if rng.random() < .25 else p for p in pts]
        ld = rng.choice(["vector_csv", "baltic_currents"])
        s = source(ld, ["uC", "vC"], pts, "MEAN", conds=conds, perm=rng.randrange(1000))
        sc["sources"].append(s)
        if rng.random() < .3:
            sc["sources"].insert(0, splitter(g, rng, "split"))
        if rng.random() < .3:
            sc["sources"].append(rand_scalar(g, rng, "sc", conds=1))
        out.append(sc)
    return out


def rand_polys(g, rng, n, sep):
    """rectangles and L-shapes with disjoint interiors on the lattice; sep: keep them one unit apart"""
    X0, Y0, X1, Y1 = g.x - 6, g.y - 6, g.x + g.nx * g.w + 6, g.y + g.ny * g.h + 6
    taken, out = [], []
    def free(r):
        m = 1 if sep else 0
        return all(r[0] >= q[0] + q[2] + m or q[0] >= r[0] + r[2] + m or r[1] >= q[1] + q[3] + m or q[1] >= r[1] + r[3] + m for q in taken)
    for _ in range(n):
        w, h = rng.choice([1, 2, 4, 6, 8, 16, 24]), rng.choice([1, 2, 4, 6, 8, 16, 24])
        r = [rng.randrange(X0, X1 - 1), rng.randrange(Y0, Y1 - 1), w, h]
        if rng.random() < .5:
            r[0] = g.x + (r[0] - g.x) // 4 * 4
            r[1] = g.y + (r[1] - g.y) // 4 * 4
        if not free(r):
            continue
        rects = [r]
        if rng.random() < .35 and r[2] > 1:         # L-shape: a second rectangle on top, flush with the west edge
            q = [r[0], r[1] + r[3], max(1, r[2] // 2), rng.choice([1, 2, 4])]
            if free(q):
                rects.append(q)
        taken += rects
        out.append(dict(rects=rects, v=rng.randrange(-5, 11)))
    return out


def gen_lut(n, seed):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        seam = rng.random() < .2
        sc, g = base_scenario(rng, i, grids=SEAM if seam else PLAIN, maxd=rng.choice([0, 1, 2, 3]))
        agg = rng.choice(["MIN", "MAX", "MEAN", "STD", "MEDIAN", "COUNT", "MEAN"])
        r = rng.random()
        if seam:       # a mosaic over the antimeridian (cut there, as files do); what only touches there is open
            agg = rng.choice(["MEAN", "STD", "MEDIAN"])
            polys = mosaic(g, rng)
            for p in polys:
                p["rects"] = [q for r in p["rects"] for q in cut(r, g.C)]
            s = source("lut_csv", ["lut"], [], agg, polys=polys)
            sc["sources"] += [s, splitter(g, rng, "split")][::rng.choice([1, -1])]
            out.append(sc)
            continue
        cond = [dict(type="boundary", boundary=rng.random() < .8, lock=False, thr=[0, 1], lb=[0, 1], ub=[0, 1])] if rng.random() < .8 else []
        if cond and not cond[0]["boundary"] and rng.random() < .5:
            cond[0]["omit"] = True
        if r < .45 and agg != "COUNT":             # a mosaic covering the whole surroundings
            polys = mosaic(g, rng)
            kw = {}
            ld = "lut_csv"
        else:
            if agg == "MEDIAN":
                agg = "MIN"
            polys = rand_polys(g, rng, rng.randrange(1, 6), sep=agg == "COUNT")
            if not polys:
                continue
            ld = "lut_csv"
            kw = {}
            if rng.random() < .4:
                ld = rng.choice(["lut_geojson", "lut_geojson", "lut_shapefile", "scotland_ncmpa"])
                v = 1 if ld == "scotland_ncmpa" else rng.choice([3, 7, 0, 1])
                for p in polys:
                    p["v"] = v
                if ld == "scotland_ncmpa" or rng.random() < .5:
                    kw = dict(bool=True, outside=1 - (1 if v else 0))
                    for p in polys:
                        p["v"] = 1 if v else 0
                    if agg not in ("MIN", "MAX"):
                        agg = rng.choice(["MIN", "MAX"])
        if len(polys) > 1 and rng.random() < .4:
            kw["parts"] = 2
        if ld == "lut_csv" and rng.random() < .3:
            kw["turned"] = True
        s = source(ld, ["exclusion_zone" if ld == "scotland_ncmpa" and rng.random() < .6 else "lut"], [], agg, conds=cond, polys=polys, **kw)
        f, fkw = rand_fill(rng)
        if rng.random() < .4:
            s["fill"] = list(f)
            s.update(fkw)
        sc["sources"].append(s)
        if rng.random() < .4:
            sc["sources"].insert(rng.randrange(2), splitter(g, rng, "split"))
        out.append(sc)
    return out


def cut(r, C):
    """the parts of a rectangle east and west of the antimeridian"""
    x, y, w, h = r
    x = norm_x(x, C)
    e = C // 2 - x
    return [[x, y, w, h]] if w <= e else [[x, y, e, h], [-(C // 2), y, w - e, h]]


def mosaic(g, rng):
    """a partition of a box around the region into rectangles"""
    parts = [[g.x - 8, g.y - 8, g.nx * g.w + 16, g.ny * g.h + 16]]
    for _ in range(rng.randrange(0, 6)):
        i = rng.randrange(len(parts))
        x, y, w, h = parts[i]
        if rng.random() < .5 and w > 2:
            c = rng.randrange(1, w)
            if rng.random() < .5:
                c = max(1, c // 4 * 4)
            parts[i:i + 1] = [[x, y, c, h], [x + c, y, w - c, h]]
        elif h > 2:
            c = rng.randrange(1, h)
            if rng.random() < .5:
                c = max(1, c // 4 * 4)
            parts[i:i + 1] = [[x, y, w, c], [x, y + c, w, h - c]]
    return [dict(rects=[p], v=rng.randrange(-5, 8)) for p in parts]


def gen_ds(n, seed):
    """P18: lattice 12 times finer, nodes on multiples of 12 so that block means stay on it"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        sc, g0 = base_scenario(rng, i, grids=[x for x in BUILD_GRIDS if x[0] not in ("antimeridian edge", "antimeridian straddling", "fine cells at the antimeridian", "global")],
                               maxd=rng.choice([0, 1, 2]))
        vec = rng.random() < .2
        agg = "MEAN" if vec else rng.choice(["MIN", "MAX", "MEAN", "COUNT"])
        nan = rng.choice([0, 0, .2]) if agg in ("MIN", "MAX") else 0
        ld = "baltic_currents" if vec else rng.choice(["gebco", "bsose_sic"])
        pts = rand_grid_points(g0, rng, 90, 9, nan, vec=vec, seam=ld != "bsose_sic")
        sc["grid"] = (g0.x * 12, g0.y * 12, g0.w * 12, g0.h * 12, g0.nx, g0.ny, str(g0.u / 12))
        pts = [[p[0] * 12, p[1] * 12, 0] + [v if v == NAV else v * 36 for v in p[3:]] for p in pts]
        ds = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])]
        if rng.random() < .2:
            ds = [1, 1]
        if ds[0] * ds[1] > 9 or 36 % (ds[0] * ds[1]):
            ds = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3])]
        s = source(ld, ["uC", "vC"] if vec else ["sc"], pts, agg, ds=ds)
        if not vec and rng.random() < .6:
            c = rand_cond(rng, 5)
            c["thr"] = [c["thr"][0] * 36, c["thr"][1]]
            s["conds"] = [c]
        sc["sources"].append(s)
        if rng.random() < .25:                   # tables are left alone
            sc["sources"].append(source("scalar_csv", ["w"], [[p[0] * 12, p[1] * 12, 0, p[3] * 3] for p in rand_points(g0, rng, 20, 5)] or [[g0.x * 12 + 12, g0.y * 12 + 12, 0, 3]], "MEAN", ds=[2, 2]))
        out.append(sc)
    return out


def gen_added(n, seed):
    """P17: the last source(s) are added programmatically"""
    rng = random.Random(seed)
    out = []
    for sc in gen_scalar(n // 2, seed) + gen_vector(n // 4, seed + 1) + gen_curl(n // 8, seed + 2) + gen_lut(n // 8, seed + 3):
        k = rng.choice([1, 1, 2]) if len(sc["sources"]) > 1 else 1
        sc["added"] = k
        out.append(sc)
    return out


BIG_GRIDS = [
    ("many cells", (-64, -32, 8, 8, 14, 8, "1")),
    ("many cells across the antimeridian", (300, -160, 8, 16, 13, 5, "1/2")),
    ("up to the pole", (16, 58, 16, 8, 5, 4, "1")),
    ("down to the pole", (-44, -90, 16, 16, 2, 3, "1")),
    ("global, many cells", (-64, -24, 8, 8, 16, 6, "45/16")),
    ("deep", (-320, 64, 64, 64, 2, 1, "1/16")),
    ("one big cell", (0, 0, 64, 32, 1, 1, "1/2")),
]


def gen_big(n, seed, pvec=.25):
    """many points, many cells, many sources, many conditions: what small inputs cannot tell apart"""
    rng = random.Random(seed * 31 + 7)
    out = []
    for i in range(n):
        name, gr = BIG_GRIDS[i % len(BIG_GRIDS)]
        g = Grid(*gr)
        sc = dict(grid=gr, kind="big: " + name, maxd=rng.choice([1, 2, 3]) if g.w < 64 else rng.choice([2, 3, 5, 6] if name == "deep" else [1, 2, 3]),
                  minpts=rng.choice([0, 1, 1, 5, 10, 20, 100, 300]), sources=[])
        if rng.random() < .4:
            sc["minpts"] = 1
            sc["sources"].append(splitter(g, rng, "split"))
        many = rng.random() < .4                       # many small sources, or one or two large ones
        for k in range(rng.choice([4, 5, 6]) if many else rng.choice([1, 2])):
            agg = rng.choice(["MIN", "MAX", "MEAN", "MEDIAN", "COUNT", "MEAN"])
            vec = rng.random() < pvec
            if vec and agg == "MEDIAN":
                agg = "MEAN"
            nan = 0 if agg == "COUNT" else rng.choice([0, .1])
            timed = rng.random() < .3
            N = rng.randrange(20, 80) if many else rng.choice([150, 300, 700, 1200])
            nm = [f"u{k}", f"w{k}"] if vec else [f"v{k}"]
            vm = rng.choice([6, 40, 400]) if not vec else 20
            if rng.random() < .6:
                pts = rand_points(g, rng, N, vm, nan, vec=vec, timed=timed)
                s = source("vector_csv" if vec else "scalar_csv", nm, pts, agg, timed=timed, parts=rng.choice([1, 2, 5]))
            else:
                ld = ("northsea_currents" if timed else "baltic_currents") if vec else rng.choice(["gebco", "bsose_sic"])
                pts = rand_grid_points(g, rng, N, vm, nan, vec=vec, timed=timed, seam=ld != "bsose_sic")
                s = source(ld, nm, pts, agg, timed=timed)
            f, kw = rand_fill(rng)
            s["fill"] = list(f)
            s.update(kw)
            if not vec:
                s["conds"] = [rand_cond(rng, vm) for _ in range(rng.choice([0, 1, 2, 4]))]
            sc["sources"].append(s)
        if sc["sources"][0]["names"] == ["split"]:
            for s in sc["sources"][1:]:
                s["conds"] = s["conds"][:1] if rng.random() < .3 else []
        elif not any(s["conds"] for s in sc["sources"]):
            sc["sources"].insert(0, splitter(g, rng, "split"))
        out.append(sc)
    return out


def gen_big_vectors(n, seed):
    return gen_big(n, seed, .8)


def gen_big_added(n, seed):
    return [dict(sc, added=1) for sc in gen_big(n, seed)]


def finding_scenarios(pid):
    """fixed inputs that known_findings.json lists as failing; kept apart from the generators"""
    edge = dict(grid=(344, -64, 16, 16, 2, 2, "1/2"), kind="antimeridian edge", maxd=0, minpts=1)
    pts = [[350, -60, 0, 1], [360, -60, 0, 2], [370, -60, 0, 4], [350, -40, 0, 1], [360, -40, 0, 2], [370, -40, 0, 4]]
    if pid == "P04":
        return [dict(edge, tag="csv-node-at-minus-180", sources=[source("scalar_csv", ["sc"], pts, "COUNT", west180=True)]),
                dict(edge, tag="bsose-node-at-180", sources=[source("bsose_sic", ["sc"], pts, "COUNT", style="360")])]
    if pid == "P18":
        fine = [[p[0] * 12, p[1] * 12, 0, 36 * p[3]] for p in pts if p[0] != 360]
        return [dict(edge, grid=(344 * 12, -64 * 12, 192, 192, 2, 2, "1/24"), tag="downsampled-across-antimeridian",
                     sources=[source("gebco", ["sc"], fine, "MEAN", ds=[2, 1])])]
    return []


def check_build(pid, tier, seed, want):
    res = Result(pid)
    thorough = tier == "thorough"
    fams, gens = PLAN[pid]
    scen = enumerated(res, fams) if fams else []
    if pid == "P17":                    # every configuration of the model, its last source added afterwards
        if not thorough:
            scen = random.Random(seed).sample(scen, min(len(scen), 700))
        for s in scen:
            s["added"] = 1
    for gen, quick, deep in gens:
        scen += gen(deep if thorough else quick, seed)
    scen = [vary(squared_fill(s), seed * 100003 + i) for i, s in enumerate(scen)] + [squared_fill(s) for s in finding_scenarios(pid)]
    traces, mts = collect_builds(scen)
    v = validate("BuildTrace", traces, want, cost=build_cost, done=True)
    res.judged(traces, *v, scen)
    cells = [len(t["steps"][0]["obs"]["cells"]) for t in traces]
    res.extra["builds"] = len(traces)
    res.extra["cells_judged"] = sum(cells)
    res.extra["builds_with_refinement"] = sum(1 for t, c in zip(traces, cells) if c > t["base"]["nx"] * t["base"]["ny"])
    if pid == "P17":                    # the graph of such meshes, too
        v = validate("MeshTrace", mts, ["tiling", "graph", "ids"], cost=lambda t: 4 + len(t["steps"][0]["obs"]["cells"]) ** 2)
        res.judged(mts, *v, scen)
    return res


PLAN = {
    "P03": ([("cond", 0), ("combine", 0), ("combine", 2), ("combine5", 0)], [(gen_scalar, 900, 9000), (gen_big, 28, 280)]),
    "P04": ([("place", 0), ("place", 1), ("place", 2), ("place", 3)], [(gen_place, 500, 6000), (gen_big, 28, 280)]),
    "P05": ([("agg", 0)], [(gen_agg, 700, 8000), (gen_big, 28, 280)]),
    "P06": ([("fill", 0), ("fill", 2), ("vfill", 0)], [(gen_agg, 300, 4000), (gen_vector, 200, 3000), (gen_big, 21, 210)]),
    "P07": ([("vagg", 0)], [(gen_vector, 600, 8000), (gen_big_vectors, 28, 280)]),
    "P08": ([("lut", 0)], [(gen_lut, 700, 8000)]),
    "P17": ([("combine", 0), ("fill", 0), ("vagg", 0), ("lut", 0)], [(gen_added, 700, 6000), (gen_big_added, 21, 210)]),
    "P18": ([("ds", 0)], [(gen_ds, 500, 6000)]),
    "P19": ([("vsplit", 0), ("vsplit", 2)], [(gen_curl, 600, 8000)]),
}
WANT = {"P03": ["cells"], "P04": ["values", "conserved"], "P05": ["values"], "P06": ["values"], "P07": ["values"], "P08": ["cells", "values"],
        "P17": ["cells", "values"], "P18": ["cells", "values"], "P19": ["cells"]}
