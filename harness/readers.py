"""P20: catalogues of data files in the published formats, written to scratch
files, read by the real data loaders; what they deliver is judged by TLC
(spec/ReadersTrace.tla).  Catalogues come from TLC (spec/ReadersModel.tla) and
from a seeded generator."""
import datetime
from common import *

EPOCH = datetime.date(2020, 2, 26)          # day 0: periods run over a leap day
ERA5 = {"era5_sig_wave_height": "swh", "era5_max_wave_height": "hmax", "era5_wave_dir": "mwd", "era5_wave_period": "mwp",
        "era5_wind_mag": None, "era5_wind_dir": None, "era5_wind": None, "era5_wave_direction": "mwd"}
STATIC = ("gebco", "bsose_depth", "modis", "sose")
WHOLE = ("bsose_sic", "baltic_sic", "northsea_currents", "baltic_currents", "oras5_currents")
DATED = tuple(ERA5) + ("duacs_currents",)
LATEST = ("ecmwf_sig_wave_height", "icenet")
SHIFT = ("bsose_sic", "bsose_depth", "sose") + tuple(ERA5)
PROJECTED = ("amsr", "visual_iced", "reprojected_csv", "reprojected_vector")
VECTOR = ("era5_wind", "era5_wave_direction", "northsea_currents", "duacs_currents", "baltic_currents", "sose", "oras5_currents", "reprojected_vector")
GRIDDED = STATIC + WHOLE + DATED + LATEST
SCALE = {"bsose_sic": 128, "icenet": 128, "visual_iced": 128}
DESC = ("baltic_sic", "ecmwf_sig_wave_height") + tuple(ERA5)


def day(n):
    return EPOCH + datetime.timedelta(days=n)


def stamp(t):
    """half days -> datetime64"""
    import numpy as np
    return np.datetime64(str(day(t // 2)), "ns") + np.timedelta64(12 * (t % 2), "h")


def half(v):
    """datetime64 or text -> half days"""
    import pandas as pd
    h = (pd.Timestamp(v) - pd.Timestamp(EPOCH)) / pd.Timedelta(hours=12)
    return int(round(h)) if abs(h - round(h)) < 1e-9 else BADINT


# ----------------------------------------------------------------------------
# raw values
def raw(reader, rng, k):
    if reader == "era5_wind_mag":
        a, b = rng.choice([(3, 4), (5, 12), (8, 15), (0, 1), (1, 0), (20, 21), (7, 24)])
        m = rng.randrange(1, 40)
        a, b = a * m * rng.choice([-1, 1]), b * m * rng.choice([-1, 1])
        return (a, b) if rng.random() < .5 else (b, a)
    if reader == "era5_wind_dir":
        u, v = rng.choice([(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)])
        m = rng.randrange(1, 40)
        return u * m, v * m
    if reader in ("era5_wave_direction",):
        return 30 * rng.randrange(0, 12), 0
    if reader == "era5_wave_dir":
        return rng.randrange(0, 360), 0
    if reader == "baltic_currents":
        return 60 * rng.randrange(-90, 90), 60 * rng.randrange(-90, 90)
    if reader in SCALE:
        return rng.randrange(0, 129), 0
    if reader in VECTOR:
        return k, rng.randrange(-500, 500)
    return (k if rng.random() < .5 else -k), 0


# ----------------------------------------------------------------------------
# writing one file
def write(path, reader, nodes, sc):
    """nodes: list of [x, y, t, a, b, gone] forming a full grid x * y * t"""
    import numpy as np
    import xarray as xr
    u = Fraction(sc["unit"])
    xs = sorted({n[0] for n in nodes})
    ys = sorted({n[1] for n in nodes}, reverse=reader in DESC)
    ts = sorted({n[2] for n in nodes})
    sh = (len(ts), len(ys), len(xs))
    A, B, G = np.zeros(sh), np.zeros(sh), np.zeros(sh, bool)
    ix = {v: i for i, v in enumerate(xs)}; iy = {v: i for i, v in enumerate(ys)}; it = {v: i for i, v in enumerate(ts)}
    for x, y, t, a, b, gone in nodes:
        A[it[t], iy[y], ix[x]] = a; B[it[t], iy[y], ix[x]] = b; G[it[t], iy[y], ix[x]] = gone
    k = SCALE.get(reader, 1)
    A = A / k
    dt = sc["dtype"]
    hide = lambda V: np.where(G, np.nan, V).astype(dt)
    lon = np.array([float(x * u) for x in xs]).astype(sc["ctype"])
    lat = np.array([float(y * u) for y in ys]).astype(sc["ctype"])
    tim = np.array([stamp(t) for t in ts]) if ts != [-1] else None
    rng = random.Random(sc["seed"])
    junk = (lambda: np.arange(A.size, dtype=dt).reshape(sh) - 7) if sc["junk"] else None
    lonn, latn, timn = {"gebco": ("lon", "lat", None), "bsose_depth": ("XC", "YC", None), "modis": ("long", "lat", None), "sose": ("lon", "lat", None),
                        "bsose_sic": ("XC", "YC", "time"), "baltic_sic": ("lon", "lat", "time"), "northsea_currents": ("lon", "lat", "times"),
                        "oras5_currents": ("nav_lon", "nav_lat", "time"), "icenet": ("lon", "lat", None)}.get(reader, ("longitude", "latitude", "time"))
    co = {latn: lat, lonn: lon}
    dims = [latn, lonn]
    if tim is not None and timn:
        co[timn] = tim
        dims = [timn] + dims
    var = lambda V: (dims, V if len(dims) == 3 else V[0])
    if reader == "gebco":
        v = {"elevation": var(hide(A) if G.any() or sc["dtype"] != "float32" else A.astype("int16"))}
    elif reader == "bsose_depth":
        co["Depth"] = var(hide(A)); v = {"hFacC": var(np.ones(sh))}
    elif reader == "modis":
        cloud = np.zeros(sh)
        V = A.copy()
        for i in zip(*np.nonzero(G)):
            if rng.random() < .7: cloud[i] = 1
            else: V[i] = np.nan
        v = {"iceArea": var(V.astype(dt)), "cloud": var(cloud)}
    elif reader == "bsose_sic":
        v = {"SIarea": var(hide(A))}
    elif reader == "baltic_sic":
        v = {"ice_concentration": var(hide(A))}
        if junk: v["ice_thickness"] = var(junk())
    elif reader == "northsea_currents":
        v = {"U": var(hide(A)), "V": var(hide(B))}
        if junk: v["W"] = var(junk())
    elif reader == "oras5_currents":
        v = {"uo": var(hide(A)), "vo": var(hide(B))}
    elif reader == "sose":
        v = {"uC": var(hide(A)), "vC": var(hide(B))}
    elif reader == "baltic_currents":
        co["depth"] = np.array([0.5, 7.0])
        ex = lambda V: ([timn, "depth", latn, lonn], np.stack([V, V + 1000], axis=1).astype(dt))
        v = {"uo": ex(A), "vo": ex(B)}
    elif reader == "duacs_currents":
        v = {"ugos": var(hide(A)), "vgos": var(hide(B))}
        if junk: v["crs"] = ([], np.int32(1))
    elif reader in ("era5_wind", "era5_wind_mag", "era5_wind_dir"):
        v = {"u10": var(hide(A)), "v10": var(hide(B))}
        if junk and reader != "era5_wind": v["swh"] = var(junk())
    elif reader in ERA5:
        v = {ERA5[reader]: var(hide(A))}
        if junk: v["sst"] = var(junk()); v["abc"] = var(junk())
    elif reader == "ecmwf_sig_wave_height":
        v = {"swh": ([latn, lonn], hide(A)[0])}
        if junk: v["mwp"] = ([latn, lonn], junk()[0])
        co.pop("time", None)
    elif reader == "icenet":
        base = sc["bases"][path]
        lead = np.array([(t - base) // 2 for t in ts])
        LON, LAT = np.meshgrid(lon, lat)
        ds = xr.Dataset({"sic_mean": (["time", "leadtime", "yc", "xc"], hide(A)[None]), "sic_stddev": (["time", "leadtime", "yc", "xc"], hide(A)[None] + 1),
                         "Lambert_Azimuthal_Grid": ([], np.int32(0)), "ensemble_members": (["time"], np.array([3]))},
                        coords={"time": np.array([stamp(base)]), "leadtime": lead, "xc": np.arange(len(xs)) * 25., "yc": np.arange(len(ys)) * 25.,
                                "lat": (["yc", "xc"], LAT), "lon": (["yc", "xc"], LON), "forecast_date": (["time", "leadtime"], np.array([[stamp(t) for t in ts]]))})
        ds.to_netcdf(path)
        return
    xr.Dataset(v, coords=co).to_netcdf(path)


def filename(reader, sc, i, f):
    d = day(f["date"] // 2)
    if reader in DATED:
        return "%s_%s.nc" % (("era5_wave" if "wav" in reader else "duacs_cur" if reader.startswith("d") else "era5_wind"), d.isoformat())
    if reader == "icenet":
        return "north_daily_forecast.%s.nc" % d.isoformat()
    if reader == "amsr":
        return "asi-AMSR2-s6250-%s-v5.4.nc" % d.strftime("%Y%m%d")
    return "%s%02d.nc" % (sc.get("stem", "part"), i)


def write_files(sc, folder):
    """Writes the catalogue; returns paths in catalogue order."""
    out = []
    reader = sc["reader"]
    if reader == "ecmwf_sig_wave_height":      # one file per lead time
        for f in sc["files"]:
            for t in sorted({n[2] for n in f["nodes"]}):
                p = os.path.join(folder, "%s-%dh-oper-fc.nc" % (day(f["date"] // 2).strftime("%Y%m%d") + "%02d0000" % (12 * (f["date"] % 2)), 12 * (t - f["date"])))
                write(p, reader, [n for n in f["nodes"] if n[2] == t], sc)
                out.append(p)
        return out
    for i, f in enumerate(sc["files"]):
        p = os.path.join(folder, filename(reader, sc, i, f))
        sc.setdefault("bases", {})[p] = f["date"]
        if reader in PROJECTED:
            write_projected(p, sc, f)
            p = sc.pop("written", p)
        else:
            write(p, reader, f["nodes"], sc)
        out.append(p)
    return out


def write_projected(path, sc, f):
    """f['plane']: nodes [X, Y, a, b, gone] in metres of sc['crs'], on a grid unless tabular"""
    import numpy as np
    import xarray as xr
    import pandas as pd
    P = f["plane"]
    if sc["reader"].startswith("reprojected"):
        p = path[:-3] + ".csv"
        if sc["reader"] == "reprojected_csv":
            pd.DataFrame({sc["xy"][0]: [n[0] for n in P], sc["xy"][1]: [n[1] for n in P], "depth": [np.nan if n[4] else n[2] for n in P]}).to_csv(p, index=False)
        else:
            pd.DataFrame({sc["xy"][0]: [n[0] for n in P], sc["xy"][1]: [n[1] for n in P], "du": [np.nan if n[4] else n[2] for n in P], "dv": [np.nan if n[4] else n[3] for n in P]}).to_csv(p, index=False)
        sc["written"] = p
        return
    xs, ys = sorted({n[0] for n in P}), sorted({n[1] for n in P})
    A = np.full((len(ys), len(xs)), np.nan)
    for X, Y, a, b, gone in P:
        if not gone:
            A[ys.index(Y), xs.index(X)] = a / SCALE.get(sc["reader"], 1)
    name = {"amsr": "z", "visual_iced": "Band1"}[sc["reader"]]
    xr.Dataset({name: (["y", "x"], A.astype(sc["dtype"])), "polar_stereographic": ([], np.int32(0))}, coords={"x": np.array(xs, float), "y": np.array(ys, float)}).to_netcdf(path)


# ----------------------------------------------------------------------------
# reading
def custom_loader(name):
    """a loader of projected tables written as the documentation says: import only"""
    import pandas as pd
    if name.lower() == "scalar_csv":
        from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader as Base
    else:
        from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader as Base

    class Custom(Base):
        def import_data(self, bounds):
            return pd.concat([pd.read_csv(f) for f in self.files], ignore_index=True)
    return Custom


def run_reader(sc):
    import numpy as np
    import pandas as pd
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    sc = json.loads(json.dumps(sc))
    u = Fraction(sc["unit"]); C = sc["C"]
    x0, y0, w, h = sc["region"]
    step = dict(op="read", reader=sc["reader"], units=sc.get("units", ""), files=[dict(date=f["date"], nodes=f["nodes"]) for f in sc["files"]],
                region=sc["region"], period=sc["period"], tol=sc.get("tol", 0), rename=sc.get("rename", []), ok=True, names=[], nodes=[], inrange=True)
    d = tempfile.mkdtemp(prefix="read.v1_" if sc.get("dotted") else "read_", dir=scratch())
    try:
        folder = os.path.join(d, "data")
        os.mkdir(folder)
        paths = write_files(sc, folder)
        e = norm_x(x0 + w, C)
        if e == -(C // 2) or w == C:
            e = C // 2
        b = Boundary([float(y0 * u), float((y0 + h) * u)], [float(x0 * u), float(e * u)],
                     [day(sc["period"][0] // 2).isoformat(), day(sc["period"][1] // 2).isoformat()])
        random.Random(sc["seed"]).shuffle(paths)
        params = {"folder": folder} if sc["how"] == "folder" else {"file": paths[0]} if sc["how"] == "file" and len(paths) == 1 else {"files": paths}
        if sc.get("units"): params["units"] = sc["units"]
        if sc.get("rename"): params["data_name"] = ",".join(sc["rename"])
        name = sc["reader"]
        if name == "amsr": params["hemisphere"] = sc["hemisphere"]
        if name == "visual_iced": params.update(in_proj=sc["crs"], x_col="x", y_col="y")
        if name.startswith("reprojected"):
            params.update(in_proj=sc["crs"], x_col=sc["xy"][0], y_col=sc["xy"][1])
            name = "scalar_csv" if name == "reprojected_csv" else "vector_csv"
            params["files"] = sorted(paths)
            params.pop("folder", None), params.pop("file", None)
        if sc.get("upper"): name = name.upper()
        try:
            if sc["reader"].startswith("reprojected"):
                dl = custom_loader(name)(b, params)
            else:
                dl = DataLoaderFactory.get_dataloader(name, b, params, min_dp=1)
            names = dl.data_name_list if hasattr(dl, "data_name_list") else dl.data_name.split(",")
            df = dl.trim_datapoints(b)
            if not isinstance(df, pd.DataFrame):
                df = df.to_dataframe()
            df = df.reset_index()
            step["names"] = [str(n) for n in names]
            if all(n in df.columns for n in names):
                df = df.dropna(subset=list(names))
                k = SCALE.get(sc["reader"], 1)
                tim = [half(t) for t in df["time"]] if "time" in df.columns else [-1] * len(df)
                lo, la = df["long"].tolist(), df["lat"].tolist()
                V = [df[n].tolist() for n in names]
                step["inrange"] = all(-180 <= x <= 180 for x in lo)
                for i in range(len(df)):
                    if step["tol"]:
                        x, y = round(lo[i] / float(u)), round(la[i] / float(u))
                    else:
                        x, y = lat_int(lo[i], 1 / u), lat_int(la[i], 1 / u)
                    vs = []
                    for v in V:
                        v = float(v[i])
                        if sc["reader"] == "era5_wave_direction": v = 4 * v * abs(v)
                        r = round(v * k)
                        tol = 1e-3 if sc["reader"] in ("era5_wave_direction", "era5_wind_dir", "era5_wind_mag", "baltic_currents") else 1e-6
                        vs.append(r if abs(v * k - r) < tol else BADINT)
                    # 360 only where the number given is below it, by rounding
                    if sc["reader"] == "era5_wind_dir": vs = [0 if v == 360 and float(V[0][i]) < 360 else v for v in vs]
                    step["nodes"].append([BADINT if x is None else norm_x(x, C), BADINT if y is None else y, tim[i], vs])
        except Exception as ex:
            step.update(ok=False, err=f"{type(ex).__name__}: {str(ex)[:300]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(C=C, steps=[step])


# ----------------------------------------------------------------------------
# scenarios
def grid_nodes(reader, rng, xs, ys, ts, counter, gone):
    out = []
    for t in ts:
        for y in ys:
            for x in xs:
                counter[0] += 1
                a, b = raw(reader, rng, counter[0])
                out.append([x, y, t, a, b, rng.random() < gone])
    if gone and all(n[5] for n in out):
        out[0][5] = False
    return out


def base(reader, rng):
    return dict(reader=reader, seed=rng.randrange(10 ** 9), dtype=rng.choice(["float32", "float64"]), ctype=rng.choice(["float32", "float64"]),
                junk=rng.random() < .5, how=rng.choice(["files", "folder", "file"]), units="", upper=rng.random() < .2,
                rename=([] if rng.random() < .75 else ["ua", "va"] if reader in VECTOR else ["depth2"]), dotted=rng.random() < .3)


def from_model(c, rng, maxdate):
    """a catalogue of ReadersModel on its 15-degree lattice"""
    reader, x, y, w, h, p0, p1, dates = c
    C = 24
    sc = base(reader, rng)
    sc.update(unit="15", C=C, region=[x, y, w, h], period=[p0, p1], dtype="float64", files=[])
    H = C // 2
    xs = sorted({2 * k + 1 - H for k in range(H)} | {-4, 0, 2})
    if reader in SHIFT:
        xs = sorted(v % C for v in xs)
    if reader == "bsose_sic": sc["units"] = rng.choice(["", "percentage", "fraction"])
    counter = [0]
    gone = 0 if reader == "baltic_currents" else .15
    for d in dates:
        ts = [-1] if reader in STATIC else [2 * d + 2 * k for k in range(1, maxdate + 3)] if reader in LATEST else [2 * d, 2 * d + 1]
        if reader == "ecmwf_sig_wave_height": ts = [t for t in ts if t != p1]
        sc["files"].append(dict(date=2 * d, nodes=grid_nodes(reader, rng, xs, range(-2, 3), ts, counter, gone)))
    return sc


def rand_grid(reader, rng):
    C = 1440
    sc = base(reader, rng)
    if reader == "bsose_sic": sc["units"] = rng.choice(["", "percentage", "fraction"])
    dx, dy = rng.choice([1, 2, 4, 7, 10, 40]), rng.choice([1, 2, 4, 5, 10])
    nx, ny = rng.randrange(2, 11), rng.randrange(2, 8)
    kind = rng.random()
    if kind < .2:                       # all round the globe
        nx = rng.choice([12, 16, 18]); dx = C // nx
        gx = rng.randrange(1, dx)
        xs = [-720 + gx + dx * k for k in range(nx)]
    elif kind < .55 and reader in SHIFT + ("gebco", "ecmwf_sig_wave_height", "duacs_currents", "modis"):   # both sides of the antimeridian
        gx = 720 - rng.randrange(1, dx * (nx - 1) + 1)
        xs = sorted({norm_x(gx + dx * k, C) for k in range(nx)} - {-720})
    elif kind < .75:                    # across Greenwich
        gx = -rng.randrange(0, dx * (nx - 1) + 1)
        xs = [gx + dx * k for k in range(nx)]
    else:
        gx = rng.randrange(-700, 700 - dx * nx)
        xs = [gx + dx * k for k in range(nx)]
    xs = [v for v in xs if -720 < v < 720]
    lo = xs[0] if kind >= .55 or kind < .2 else gx
    gy = rng.randrange(-340, 340 - dy * ny)
    ys = [gy + dy * k for k in range(ny)]
    wide = C if kind < .2 else dx * nx
    # region: around, inside, or beside the grid; edges often on nodes
    for _ in range(100):
        x = lo + rng.choice([-dx, 0, dx, rng.randrange(-dx, wide + 1), -1, 1])
        w = rng.choice([dx, dx * 2, rng.randrange(1, wide + 2), wide, wide + dx * 2])
        x = norm_x(x, C)
        y = gy + rng.choice([-dy, 0, dy, -1, 1, rng.randrange(-dy, dy * ny)])
        h = rng.choice([dy, dy * 2, rng.randrange(1, dy * ny + 2), dy * ny + dy])
        if 0 < w < C and x != 720 and -360 <= y and y + h <= 360:
            break
    else:
        return rand_grid(reader, rng)
    if kind < .2 and rng.random() < .3:
        x, w = -720, C
    sc.update(unit="1/4", C=C, region=[x, y, w, h])
    d0 = rng.randrange(1, 5); d1 = d0 + rng.choice([0, 0, 1, 2, 3])
    sc["period"] = [2 * d0, 2 * d1 + 1]
    fx = sorted(v % C for v in xs) if reader in SHIFT and rng.random() < .8 else xs
    counter = [rng.randrange(0, 200)]
    gone = 0 if reader == "baltic_currents" else rng.choice([0, 0, .1, .3])
    files = []
    if reader in STATIC:
        r = rng.random()
        if r < .55: parts = [(fx, ys)]
        elif r < .8: c = rng.randrange(1, len(ys)); parts = [(fx, ys[:c]), (fx, ys[c:])]
        else: c = rng.randrange(1, len(fx)); parts = [(fx[:c], ys), (fx[c:], ys)]
        for a, b in parts:
            files.append(dict(date=0, nodes=grid_nodes(reader, rng, a, b, [-1], counter, gone)))
    elif reader in WHOLE:
        ts = sorted(rng.sample(range(max(0, 2 * d0 - 3), 2 * d1 + 4), rng.randrange(1, 5)))
        if reader == "baltic_currents" and not any(2 * d0 <= t <= 2 * d1 + 1 for t in ts):
            ts = [2 * d0] + [t for t in ts if t > 2 * d0]
        cuts = [ts] if rng.random() < .5 or len(ts) < 2 else [ts[:len(ts) // 2], ts[len(ts) // 2:]]
        for c in cuts:
            files.append(dict(date=0, nodes=grid_nodes(reader, rng, fx, ys, c, counter, gone)))
    elif reader in DATED:
        days = sorted(rng.sample(range(max(0, d0 - 2), d1 + 3), rng.randrange(1, 5 if d1 + 3 - max(0, d0 - 2) >= 4 else 3)))
        if not any(d0 <= d <= d1 for d in days):
            days = sorted(set(days) | {rng.randint(d0, d1)})
        for d in days:
            files.append(dict(date=2 * d, nodes=grid_nodes(reader, rng, fx, ys, rng.choice([[2 * d], [2 * d, 2 * d + 1], [2 * d + 1]]), counter, gone)))
    elif reader == "icenet":
        days = sorted(rng.sample(range(0, d1 + 2), rng.randrange(1, 3)))
        if not any(d < d0 for d in days):
            days = sorted(set(days) | {rng.randrange(0, d0)})
        for d in days:
            files.append(dict(date=2 * d, nodes=grid_nodes(reader, rng, fx, ys, [2 * (d + k) for k in range(1, 11)], counter, gone)))
    else:
        bases = sorted(rng.sample(range(0, 2 * d1 + 2), rng.randrange(1, 4)))
        if not any(b < 2 * d0 for b in bases):
            bases = sorted(set(bases) | {rng.randrange(0, 2 * d0)})
        for b in bases:
            ts = sorted(rng.sample(range(b, b + 10), rng.randrange(2, 6)))
            best = max(q for q in bases if q < 2 * d0)
            if b == best and not any(2 * d0 <= t <= 2 * d1 for t in ts):
                ts = sorted(set(ts) | {rng.randint(2 * d0, 2 * d1)})
            ts = [t for t in ts if t != 2 * d1 + 1]
            files.append(dict(date=b, nodes=grid_nodes(reader, rng, fx, ys, ts or [b], counter, gone)))
    sc["files"] = files
    return sc


def rand_projected(reader, rng):
    """nodes on a plane; their true positions by an independent inverse transformation"""
    import pyproj
    C, unit = 36_000_000, "1/100000"
    sc = base(reader, rng)
    south = rng.random() < .5
    sc["hemisphere"] = rng.choice(["south", "South"] if south else ["north", "NORTH"])
    crs = ("EPSG:3412" if south else "EPSG:3411") if reader in ("amsr",) else rng.choice(["EPSG:3031" if south else "EPSG:3995", "EPSG:3412" if south else "EPSG:3411", "EPSG:3857", "EPSG:32630"])
    sc.update(unit=unit, C=C, tol=3, crs=crs, xy=rng.choice([("x", "y"), ("easting", "northing")]))
    d0 = rng.randrange(1, 5); d1 = d0 + rng.choice([0, 0, 1, 2])
    sc["period"] = [2 * d0, 2 * d1 + 1]
    tr = pyproj.Transformer.from_crs(crs, "EPSG:4326")      # default axis order: gives lat, long
    if "32630" in crs: ox, oy, sp = 300000 + rng.randrange(0, 300000), rng.randrange(3000000, 7000000), rng.choice([5000, 20000, 43210])
    elif "3857" in crs: ox, oy, sp = rng.randrange(-15000000, 13000000), rng.randrange(-9000000, 8000000), rng.choice([50000, 123456, 200000])
    else: ox, oy, sp = rng.randrange(-3500000, 2500000), rng.randrange(-3500000, 2500000), rng.choice([6250, 50000, 123456, 200000])
    nx, ny = rng.randrange(2, 7), rng.randrange(2, 7)
    days = [0]
    if reader == "amsr":
        days = sorted(rng.sample(range(max(0, d0 - 2), d1 + 3), rng.randrange(1, 4)))
        if not any(d0 <= d <= d1 for d in days):
            days = sorted(set(days) | {rng.randint(d0, d1)})
    files, counter = [], [0]
    gone = rng.choice([0, .2])
    nf = 1 if reader == "visual_iced" else len(days) if reader == "amsr" else rng.choice([1, 2])
    pts = set()
    for i in range(nf):
        plane, nodes = [], []
        for X in range(nx):
            for Y in range(ny):
                if reader.startswith("reprojected"):
                    mx, my = ox + X * sp + rng.randrange(0, sp // 2), oy + Y * sp + rng.randrange(0, sp // 2)
                else:
                    mx, my = ox + X * sp, oy + Y * sp
                la, lo = tr.transform(mx, my)
                x, y = norm_x(round(lo * 100000), C), round(la * 100000)
                if abs(abs(x) - C // 2) < 1000:
                    return rand_projected(reader, rng)
                counter[0] += 1
                a, b = raw(reader, rng, counter[0])
                g = rng.random() < gone
                t = 2 * days[i] if reader == "amsr" else -1
                plane.append([mx, my, a, b, g]); nodes.append([x, y, t, a, b, g]); pts.add((x, y))
        files.append(dict(date=2 * days[i] if reader == "amsr" else 0, plane=plane, nodes=nodes))
    sc["files"] = files
    if reader.startswith("reprojected") is False and len({(round(p[0] / 10), round(p[1] / 10)) for p in pts}) != nx * ny:
        return rand_projected(reader, rng)
    # a region around some of them, edges off the nodes
    P = sorted(pts)
    for _ in range(50):
        c = rng.choice(P)
        w, h = rng.randrange(100000, 9000000), rng.randrange(100000, 4000000)
        x, y = norm_x(c[0] - rng.randrange(1, w), C), c[1] - rng.randrange(1, h)
        if y < -8990000 or y + h > 8990000:
            continue
        if all(min((p[0] - e) % C, (e - p[0]) % C) > 50 for p in P for e in (x, x + w)) and all(abs(p[1] - e) > 50 for p in P for e in (y, y + h)) and x != C // 2:
            break
    else:
        return rand_projected(reader, rng)
    sc["region"] = [x, y, w, h]
    return sc


def model_catalogues(res, maxdate):
    r = tlc("ReadersModel", cfg("ReadersSpec", dict(Circle=24, MaxDate=maxdate), ["Where", "Additive", "OneForecast", "Emit"], properties=["Grows"]), workers=6, timeout=700, heap="6g")
    res.model(f"ReadersModel/{maxdate}", r)
    out = []
    for m in re.finditer(r'<<\s*"CAT",\s*"(\w+)",\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*\{(.*?)\}\s*>>', r["out"], re.S):
        out.append((m.group(1),) + tuple(int(m.group(i)) for i in range(2, 8)) + (sorted(int(v) for v in m.group(8).split(",")),))
    if len(out) < 100:
        raise MachineryError("too few catalogues")
    return sorted(out)


def check_readers(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    rng = random.Random(seed)
    md = 3 if thorough else 2
    cats = [c for c in model_catalogues(res, md) if c[0] not in PROJECTED]
    res.extra["catalogues_enumerated_by_tlc"] = len(cats)
    if not thorough:
        by = {}
        for c in cats: by.setdefault(c[0], []).append(c)
        cats = [c for k in sorted(by) for c in rng.sample(by[k], min(len(by[k]), 30))]
    else:
        rng.shuffle(cats)
        cats = cats[:6000]
    res.extra["catalogues_replayed"] = len(cats)
    scs = [from_model(c, rng, md) for c in cats]
    for r in GRIDDED:
        scs += [rand_grid(r, rng) for _ in range(400 if thorough else 28)]
    for r in PROJECTED:
        scs += [rand_projected(r, rng) for _ in range(600 if thorough else 60)]
    traces = []
    for s, tr in run_pool(run_reader, scs, 60):
        traces.append(tr if s == "ok" else None)
    for i, tr in enumerate(traces):
        if tr is None:
            sc = scs[i]
            traces[i] = dict(C=sc["C"], steps=[dict(ok=False, err="timeout", reader=sc["reader"])])
    v = validate("ReadersTrace", traces, cost=lambda t: 5 + sum(len(f["nodes"]) for f in t["steps"][0].get("files", [])))
    res.judged(traces, *v, scs)
    got = sum(len(t["steps"][0].get("nodes", [])) for t in traces)
    res.extra["nodes_delivered"] = got
    res.extra["readers"] = len({sc["reader"] for sc in scs})
    if got < len(scs) and not v[0]:
        raise MachineryError("vacuous: almost nothing delivered")
    return res
