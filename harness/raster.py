"""GeoTIFF export: P22 (trace specification RasterTrace)."""
import os, json, random, re, tempfile, shutil, math
from fractions import Fraction
from common import *
from mesh import Grid, RAND_GRIDS, mesh_json, obs_json, random_cells, err, finer

GAP = (9, 9, 9)
RASTER_GRIDS = [g for g in RAND_GRIDS if g[0] not in ("tiny cells",)]
Q = 64


def colour(v):
    return (v, 255 - v, 77)


def write_table(path):
    with open(path, "w") as f:
        for v in range(251):
            f.write("%d %d %d %d\n" % ((v,) + colour(v)))
        f.write("nan %d %d %d\n" % GAP)


def pixel(rgb, table):
    rgb = tuple(int(c) for c in rgb)
    if not table:
        return rgb[0] * 65536 + rgb[1] * 256 + rgb[2]
    if rgb == GAP:
        return -1
    return rgb[0] if rgb[2] == 77 and rgb[1] == 255 - rgb[0] else -2


def shown(c, name):
    """the value of a cell of a mesh file as the image shows it"""
    v = c.get(name)
    if isinstance(v, list):
        v = sum(v) / len(v)
    if v is None or isinstance(v, str) or not math.isfinite(v):
        return -1
    return int(v) if v == int(v) else -3


def mem_of(m, g, name):
    j = json.loads(json.dumps(m.to_json()))
    o = obs_json(j, g)
    if not o["lattice"]:
        raise ValueError("cells off the lattice")
    return [dict(x=r[0], y=r[1], w=r[2], h=r[3], v=shown(c, name)) for r, c in zip(o["cells"], j["cellboxes"])]


def put_values(j, rng, gaps, vectors):
    vals = [rng.randrange(5, 250) for _ in range(rng.choice([2, 4, 9]))]
    for k, c in enumerate(j["cellboxes"]):
        c.pop("v", None)
        c["other"] = rng.randrange(5, 250)
        v = rng.choice(vals)
        r = rng.random()
        if gaps and r < .15:
            v = rng.choice([float("nan"), float("inf"), -float("inf")])
        elif gaps and r < .25:
            continue                                # the cell has no such value
        elif vectors and r < .6:
            d = rng.randrange(0, 5)
            v = rng.choice([[v - d, v + d], [v - d, v + d], [v], [v + 2 * d, v - d, v - d], [float(v), v + 3.0 * d, float(v), v - 3.0 * d]])
        elif r < .8:
            v = float(v)
        c["layer"] = v


def run_raster(sc):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    g = Grid(*sc["grid"])
    rng = random.Random(sc["seed"])
    reg = dict(x=norm_x(g.x, g.C), y=g.y, w=g.nx * g.w, h=g.ny * g.h)
    trace = dict(C=g.C, reg=reg, steps=[])
    st = trace["steps"]
    name = "layer"
    cells = [tuple(c) for c in sc["cells"]] if "cells" in sc else random_cells(g, rng, sc["pre"], 3)
    if sc.get("holes") and len(cells) > 2:
        cells.pop(rng.randrange(1, len(cells)))
    d = tempfile.mkdtemp(prefix="tif_", dir=scratch())
    cwd, oldtmp = os.getcwd(), tempfile.tempdir
    for k in ("cwd", "tmp", "out put"):
        os.makedirs(os.path.join(d, k))
    try:
        try:
            j = mesh_json(g, cells, [0] * len(cells), depth=4)
            put_values(j, rng, sc["gaps"], sc["vectors"])
            j = json.loads(json.dumps(j))
            m = EnvironmentMesh.load_from_json(j)
            st.append(dict(op="start", ok=True, mem=mem_of(m, g, name)))
        except Exception as e:
            st.append(dict(op="start", ok=False, err=err(e), mem=[]))
            return trace
        table = os.path.join(d, "col ours.txt")
        write_table(table)
        os.chdir(os.path.join(d, "cwd"))
        tempfile.tempdir = os.path.join(d, "tmp")
        for k, op in enumerate(sc["ops"]):
            s = dict(op=op["op"])
            try:
                if op["op"] == "split":
                    cand = [str(c.get_id()) for c, r in zip(m.agg_cellboxes, st[-1]["mem"]) if r["w"] % 2 == 0 and r["h"] % 2 == 0]
                    if not cand:
                        continue
                    m.split_and_replace(rng.choice(cand))
                    s.update(ok=True, mem=mem_of(m, g, name))
                else:
                    s.update(export(m, op, g, reg, d, k, table, sc, name))
            except Exception as e:
                s.update(ok=False, err=err(e), mem=[])
            st.append(s)
            if not s["ok"]:
                break
    finally:
        os.chdir(cwd)
        tempfile.tempdir = oldtmp
        shutil.rmtree(d, ignore_errors=True)
    return trace


def export(m, op, g, reg, d, k, table, sc, name):
    from osgeo import gdal, osr
    gdal.UseExceptions()
    par = dict(data_name=name)
    rows, cols = op["res"] or (100, 100)
    if op["res"]:
        par["sampling_resolution"] = list(op["res"])
    if op["mode"] != "palette":
        par["colour_conf"] = table
    if op["epsg"] != "4326" or op.get("spelt"):
        par["projection"] = op["epsg"]
    pf = os.path.join(d, f"p{k}.json")
    json.dump(par, open(pf, "w"))
    out = os.path.join(d, "out put", f"o{k}.tif")
    before = files(d)
    if op.get("cli"):
        import io_
        mf = os.path.join(d, f"m{k}.json")
        json.dump(m.to_json(), open(mf, "w"))
        before = files(d)
        io_.cli("export_mesh_cli", [mf, op["fmt"], "-o", out, "-f", pf])
    else:
        m.save(out, op["fmt"], pf)
    tidy = files(d) - before == {out}
    ds = gdal.Open(out)
    a = ds.ReadAsArray()
    gt = ds.GetGeoTransform()
    h, w = ds.RasterYSize, ds.RasterXSize
    crs = osr.SpatialReference(wkt=ds.GetProjection())
    dest = osr.SpatialReference()
    dest.ImportFromEPSG(int(op["epsg"]))
    same = bool(crs.IsSame(dest))
    if a.ndim != 3 or a.shape[0] < 3:
        raise ValueError("not a colour image")
    S = 1 / g.u
    s = dict(ok=True, mem=mem_of(m, g, name), rows=rows, cols=cols, mode=op["mode"], tidy=tidy, crs=same, gaps=True,
             size=[h, w], place=[0, 0, 0, 0], px=[], pos=[], Q=Q)
    if op["mode"] == "warped":
        tr = osr.CoordinateTransformation(dest, base_crs())
        for r in range(h):
            for c in range(w):
                x, y = gt[0] + (c + .5) * gt[1] + (r + .5) * gt[2], gt[3] + (c + .5) * gt[4] + (r + .5) * gt[5]
                try:
                    lon, lat, _ = tr.TransformPoint(x, y)
                except Exception:
                    continue
                if not (math.isfinite(lon) and math.isfinite(lat)):
                    continue
                px = (Fraction(lon) * S - reg["x"])
                # the turn of the globe nearest to the region's middle
                px = px - g.C * round((px - Fraction(reg["w"], 2)) / g.C)
                v = pixel(a[:3, r, c], True)
                s["pos"].append([int(round(px * Q)), int(round((Fraction(lat) * S - reg["y"]) * Q)), v])
    else:
        pl = [lat_int(gt[0], S), lat_int(gt[3], S), lat_int(gt[1] * w, S), lat_int(-gt[5] * h, S)]
        pl = [BADINT if v is None else v for v in pl]
        if gt[2] or gt[4]:
            pl[2] = BADINT
        pl[0] = pl[0] if pl[0] == BADINT else norm_x(pl[0], g.C)
        s["place"] = pl
        s["px"] = [[pixel(a[:3, r, c], op["mode"] == "table") for c in range(w)] for r in range(h)]
    return s


def base_crs():
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


def files(d):
    return {os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs}


# --------------------------------------------------------------------------
def model(res, splits, maxres):
    jobs = [(("RasterModel", cfg("RSpec", dict(X0=x, CIRC=c, MaxSplits=splits, MaxRes=maxres), ["Shared", "FineShowsArea", "North", "Emit"])), dict(timeout=700))
            for x, c in ((4, 360), (176, 360))]
    out = []
    for (x, c), r in zip(((4, 360), (176, 360)), tlc_many(jobs)):
        res.model(f"RasterModel/{x}/{splits}/{maxres}", r)
        hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
        seen = set()
        for h in hs:
            cs = sorted((k["x"], k["y"], k["w"], k["h"]) for k in h["cells"])
            key = (tuple(cs), h["rows"], h["cols"])
            if key not in seen:
                seen.add(key)
                out.append(dict(grid=(x, 0, 4, 4, 2, 1, "1"), kind="enumerated", cells=cs, gaps=False, vectors=False, seed=len(out),
                                ops=[dict(op="export", res=[h["rows"], h["cols"]], mode="table", epsg="4326", fmt="tif")]))
    if len(out) < 100:
        raise MachineryError("too few images from RasterModel")
    return out


FMTS = ["TIF", "tif", "Tif"]


def gen_raster(n, seed):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        kind, gr = RASTER_GRIDS[i % len(RASTER_GRIDS)]
        g = Grid(*gr)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .3:
                ops.append(dict(op="split"))
            mode = rng.choice(["table", "table", "table", "palette", "warped"])
            epsg = "4326"
            res = [rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 19]), rng.choice([1, 2, 3, 4, 6, 8, 9, 13, 16, 24])]
            if mode == "warped":
                crosses = g.x * g.u + g.nx * g.w * g.u > 180
                lo, hi = g.y * g.u, (g.y + g.ny * g.h) * g.u
                if g.wraps() or crosses or max(abs(lo), abs(hi)) > 80:
                    mode = "table"
                else:
                    epsg = rng.choice(["3857", "3031" if hi < -20 else "3857"])
                    res = [rng.choice([8, 11, 16]), rng.choice([8, 12, 17])]
            ops.append(dict(op="export", res=res, mode=mode, epsg=epsg, spelt=rng.random() < .3, fmt=rng.choice(FMTS), cli=rng.random() < .25))
        out.append(dict(grid=finer(gr, 2), kind=kind, pre=rng.randrange(0, 7), seed=rng.randrange(10 ** 9), gaps=rng.random() < .4, holes=rng.random() < .15,
                        vectors=rng.random() < .3, ops=ops))
    return out


def check_raster(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    import osgeo.gdal                                    # noqa: before forking
    scen = model(res, 3 if thorough else 2, 5 if thorough else 4)
    rng = random.Random(seed)
    keep = 6000 if thorough else 500
    if len(scen) > keep:
        scen = rng.sample(scen, keep)
    res.extra["images_enumerated_by_tlc"] = len(scen)
    scen += gen_raster(3000 if thorough else 300, seed)
    if thorough:
        scen.append(dict(grid=(-20, -60, 8, 8, 2, 2, "1"), kind="default resolution", pre=2, seed=seed, gaps=True, vectors=False,
                         ops=[dict(op="export", res=None, mode="table", epsg="4326", fmt="TIF")]))
    traces = []
    for sc, (s, tr) in zip(scen, run_pool(run_raster, scen, 90)):
        traces.append(tr if s == "ok" else dict(C=360, reg=dict(x=0, y=0, w=1, h=1), steps=[dict(op="start", ok=False, err="timeout", mem=[])]))
    v = validate("RasterTrace", traces, cost=lambda t: sum(len(s["mem"]) * (1 + s.get("rows", 1) * s.get("cols", 1)) + len(s.get("pos", [])) * len(s["mem"]) for s in t["steps"]))
    res.judged(traces, *v, scen)
    ex = [s for t in traces for s in t["steps"] if s["op"] == "export" and s["ok"]]
    res.extra["images"] = {m: sum(1 for s in ex if s["mode"] == m) for m in ("table", "palette", "warped")}
    res.extra["pixels_judged"] = sum(len(s["pos"]) + sum(len(r) for r in s["px"]) for s in ex)
    return res
