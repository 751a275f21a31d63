"""Boundaries, dates and configurations: P13, P14 (trace specification ConfTrace)."""
import os, json, random, tempfile, shutil, copy, datetime
from common import *
from mesh import err


def ymd(d):
    return [d.year, d.month, d.day]


def today():
    return ymd(datetime.datetime.today())


def ymd_text(t):
    d = datetime.datetime.strptime(t, "%Y-%m-%d")
    return ymd(d)


JUNK = ["", "yesterday", "01/02/2020", "2020-02", "TOMORROW", "TODAY+", "TODAY-", "TODAY+x", "TODAY*3", "TODAY+5 days", "TODAY 5", "TODAY5",
        "2020-01-01-05", "2020/01/01", "2020-Jan-05", "TODAY-5-3", "TODAY-5+3", "NOTTODAY+2", "2020-01-01 TODAY+1", "TODAYS", "TODAY+3-1", "now"]


def date_text(x, rng, conf=False):
    if x["k"] == "iso":
        return f"{x['y']:04d}-{x['m']:02d}-{x['d']:02d}"
    if x["k"] == "junk":
        return rng.choice(JUNK)
    n = x["n"]
    sp = lambda: rng.choice(["", " ", "  "])
    word = "TODAY" if x["up"] else rng.choice(["today", "Today", "toDAY"])
    if n == 0 and rng.random() < .6:
        return word if conf else sp() + word + sp()
    sign = "-" if n < 0 or (n == 0 and rng.random() < .5) else "+"
    return sp() + word + sp() + sign + sp() + str(abs(n)) + sp()


# --------------------------------------------------------------------------
# boxes
def lat(v, S, bad):
    r = lat_int(v, S)
    if r is None:
        bad.append(v)
        return 0
    return r


def run_boxes(sc):
    from meshiphi.mesh_generation.boundary import Boundary
    from fractions import Fraction
    u = Fraction(sc["unit"])
    C = int(360 / u)
    S = 1 / u
    rng = random.Random(sc["seed"])
    steps = []
    num = lambda v: (lambda f: int(f) if f.denominator == 1 and rng.random() < .5 else float(f))(v * u)

    def mk(b, t=None):
        return Boundary([num(b[0]), num(b[1])], [num(b[2]), num(b[3])], *([t] if t else []))

    for b in sc["boxes"]:
        s = dict(op="box", box=b)
        bad = []
        L = lambda v: lat(v, S, bad)
        four = lambda q: [L(q.get_lat_min()), L(q.get_lat_max()), L(q.get_long_min()), L(q.get_long_max())]
        times = rng.choice([None, ["2020-02-28", "2020-03-01"], ["2020-02-29", "2020-02-29"]])
        try:
            q = mk(b, list(times) if times else None)
            s["ok"] = True
        except Exception as e:
            s.update(ok=False, err=err(e), onlattice=True)
            steps.append(s)
            continue
        try:
            pieces = []
            poly = q.to_polygon()
            for g in (poly.geoms if poly.geom_type == "MultiPolygon" else [poly]):
                x0, y0, x1, y1 = g.bounds
                if abs(g.area - (x1 - x0) * (y1 - y0)) > 1e-9 * max(1, g.area) or not g.is_valid:
                    bad.append("shape")
                pieces.append([L(x0), L(y0), L(x1) - L(x0), L(y1) - L(y0)])
            back = Boundary.from_poly_string(q.to_poly_string())
            quarters = q.split()
            other = list(b)
            if rng.random() < .7:
                k = rng.randrange(4)
                other[k] += rng.choice([-1, 1])
            try:
                o = mk(other)
            except Exception:
                other, o = list(b), mk(b)
            w = L(q.get_width())
            turned = mk([b[0], b[1], -C // 2, -C // 2 + w]) if 0 < w <= C else q
            s.update(width=w, height=L(q.get_height()), limits=four(q), centre2=[lat(q.getcx(), 2 * S, bad), lat(q.getcy(), 2 * S, bad)],
                     half2=[lat(q.getdcx(), 2 * S, bad), lat(q.getdcy(), 2 * S, bad)], corners=[[L(v) for v in p] for p in q.get_bounds()], pieces=pieces, parsed=four(back),
                     quarters=[four(x) for x in quarters], qtimes=all(list(x.get_time_range()) == (times or []) for x in quarters + [q]),
                     same=bool(q == mk(b)), other=other, equal=bool(q == o), size=[round(q.calc_size()), round(turned.calc_size())])
            s["onlattice"] = not bad
        except Exception as e:
            s.update(err=err(e), onlattice=False)
        steps.append(s)
    return dict(C=C, steps=steps)


def run_dates(sc):
    from meshiphi.mesh_generation.boundary import Boundary
    rng = random.Random(sc["seed"])
    steps = []
    for it in sc["items"]:
        t0 = today()
        if len(it) == 1:
            x = it[0]
            s = dict(op="date", expr=x, text=date_text(x, rng))
            try:
                s.update(day=ymd_text(Boundary.parse_datetime(s["text"])), ok=True)
            except Exception as e:
                s.update(ok=False, err=err(e))
        else:
            s = dict(op="times", text=[date_text(x, rng) for x in it])
            s["from"], s["to"] = it
            try:
                b = Boundary([0, 1], [0, 1], list(s["text"])) if rng.random() < .5 else Boundary.from_json(
                    {"region": dict(lat_min=0, lat_max=1, long_min=0, long_max=1, start_time=s["text"][0], end_time=s["text"][1])})
                s.update(days=[ymd_text(b.get_time_min()), ymd_text(b.get_time_max())], ok=list(b.get_time_range()) == [b.get_time_min(), b.get_time_max()])
            except Exception as e:
                s.update(ok=False, err=err(e))
        s["today"] = [t0, today()]
        steps.append(s)
    return dict(C=8, steps=steps)


# --------------------------------------------------------------------------
# configurations
def render_value(v, rng, unit, key):
    k = v["k"]
    if k == "num":
        f = v["v"] * unit
        return int(f) if f == int(f) and rng.random() < .6 else float(f)
    if k == "int":
        return rng.choice([0, 1, 2]) if key == "split_depth" else rng.choice([1, 5])
    if k == "frac":
        return 1.5
    if k in ("iso", "today", "junk"):
        return date_text(v, rng, True)
    return {"str": "abc", "null": None, "bool": True, "list": [1], "obj": {"a": 1}}[k]


SHAPES = ("rectangle", "gradient", "circle", "checkerboard")


def render(c, rng, unit, d):
    from pathlib import Path
    region = {k: render_value(v, rng, unit, k) for k, v in c["region"].items()}
    splitting = {k: render_value(v, rng, unit, k) for k, v in c["splitting"].items()}
    sources = []
    for i, q in enumerate(c["sources"]):
        sub = os.path.join(d, f"s{i}")
        os.makedirs(sub, exist_ok=True)
        name = q["loader"]
        data = {"scalar_csv": "lat,long,v\n1.5,1.5,2\n2.5,-170.5,3\n", "vector_csv": "lat,long,u,w\n1.5,1.5,2,1\n2.5,-170.5,3,1\n",
                "lut_csv": 'geometry,v\n"POLYGON((0 0,0 5,5 5,5 0,0 0))",2\n',
                "lut_geojson": json.dumps({"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {}, "geometry": {
                    "type": "Polygon", "coordinates": [[[0, 0], [0, 5], [5, 5], [5, 0], [0, 0]]]}}]})}.get(name, "lat,long,v\n1.5,1.5,2\n2.5,2.5,3\n")
        fn = os.path.join(sub, "data." + ("geojson" if name == "lut_geojson" else "csv"))
        open(fn, "w").write(data)
        p = {}
        for k in q["params"]:
            p[k] = {"files": [fn], "file": fn, "folder": sub, "value": 3}.get(k)
        if name in SHAPES and q["pk"] == "obj":
            p.update(nx=3, ny=4)
        if name == "lut_geojson":
            p["data_name"] = "x"
        elif name in ("scalar_csv", "vector_csv") and rng.random() < .3:
            p["aggregate_type"] = "MEAN"
        if name in ("scalar_csv", "vector_csv", "lut_csv", "lut_geojson") + SHAPES:
            name = rng.choice([name, name.upper(), name.title()])
        src = {"loader": name if q["lk"] == "str" else 3, "params": p if q["pk"] == "obj" else []}
        src = {k: src.get(k, 1) for k in q["keys"]}
        sources.append(src)
    out = {}
    secs = dict(region=region, splitting=splitting, data_sources=sources)
    for k in c["top"]:
        if k in secs:
            kind = c["okinds"][k]
            natural = "list" if k == "data_sources" else "obj"
            out[k] = secs[k] if kind == natural else {"list": [], "null": None, "str": "abc", "obj": {}}[kind]
        else:
            out[k] = rng.choice([1, "x", {"a": 2}, None])
    return out


def run_confs(sc):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    from meshiphi.mesh_generation.cellbox import CellBox
    from meshiphi.config_validation.config_validator import validate_mesh_config
    from fractions import Fraction
    unit = Fraction(sc["unit"])
    rng = random.Random(sc["seed"])
    steps = []
    d = tempfile.mkdtemp(prefix="cf_", dir=scratch())
    try:
        for n, c in enumerate(sc["confs"]):
            sub = os.path.join(d, str(n))
            os.mkdir(sub)
            real = render(c, rng, unit, sub)
            t0 = today()
            s = dict(op="conf", conf=c, shown=json.dumps(real).replace(d, ""), cells=0, days=[t0, t0])
            try:
                validate_mesh_config(copy.deepcopy(real))
                s["valid"] = True
            except Exception as e:
                s.update(valid=False, err_valid=err(e))
            try:
                p = os.path.join(sub, "c.json")
                json.dump(real, open(p, "w"))
                validate_mesh_config(p)
                s["validfile"] = True
            except Exception as e:
                s.update(validfile=False, err_file=err(e))
            try:
                b = MeshBuilder(copy.deepcopy(real))
                s.update(built=True, cells=sum(isinstance(x, CellBox) for x in b.mesh.cellboxes),
                         days=[ymd_text(b.config["region"]["start_time"]), ymd_text(b.config["region"]["end_time"])])
            except Exception as e:
                s.update(built=False, err=err(e))
            s["today"] = [t0, today()]
            steps.append(s)
            shutil.rmtree(sub, ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(C=int(360 / unit), steps=steps)


# --------------------------------------------------------------------------
def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def model_boxes(res, circle, latn):
    r = tlc("BoxModel", cfg("BoxSpec", dict(Circle=circle, Lat=latn), ["QuartersTile", "WidthRange", "TurnInvariant", "Emit"]), workers=4, timeout=700)
    res.model(f"BoxModel/{circle},{latn}", r)
    out = [[int(v) for v in m] for m in re.findall(r'<<\s*"BOX",\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\s*>>', r["out"])]
    if len(out) < 200:
        raise MachineryError("too few boxes")
    return sorted(map(list, {tuple(b) for b in out}))


def rand_box(rng, C, H):
    """a box on a fine lattice; even extents (quarters stay on the lattice)"""
    while True:
        s, n = sorted(2 * rng.randrange(-H // 2, H // 2 + 1) for _ in range(2))
        w = rng.choice([2 * rng.randrange(-C // 4, C // 4), -C // 2, 2 * rng.randrange(C // 5, C // 4), 0])
        wd = 2 * rng.randrange(1, C // 2) if rng.random() < .5 else 2 * rng.randrange(1, max(2, C // 16))
        e = norm_x(w + wd, C)
        if e == -C // 2 and rng.random() < .8:
            e = C // 2
        r = rng.random()
        if r < .04:
            s, n = n, s
        elif r < .08:
            w += C * rng.choice([1, -1])
        elif r < .12:
            e += C * rng.choice([1, -1])
        if s == n or ((w - e) % C == 0 and abs(w) <= C // 2 and abs(e) <= C // 2 and (w, e) != (-C // 2, C // 2)):
            continue
        return [s, n, w, e]


def rand_expr(rng):
    r = rng.random()
    if r < .5:
        y = rng.choice([1900, 1999, 2000, 2001, 2004, 2019, 2020, 2023, 2024, 2100, rng.randrange(1800, 2200)])
        return dict(k="iso", y=y, m=rng.choice([1, 2, 2, 3, 4, 12, 13, 0, rng.randrange(1, 13)]), d=rng.choice([1, 28, 29, 30, 31, 32, 0, rng.randrange(1, 29)]))
    if r < .85:
        return dict(k="today", n=rng.choice([0, 1, -1, rng.randrange(-4000, 4000), rng.randrange(-40, 40)]), up=rng.random() < .5)
    return dict(k="junk")


def near(x, rng):
    """an expression near x in time: the order of the two matters"""
    if x["k"] == "junk" or rng.random() < .4:
        return rand_expr(rng)
    if x["k"] == "today":
        if rng.random() < .3:
            d = datetime.datetime.today() + datetime.timedelta(days=x["n"] + rng.choice([-2, 2, 0]))
            return dict(k="iso", y=d.year, m=d.month, d=d.day)
        return dict(k="today", n=x["n"] + rng.choice([-1, 0, 1]), up=rng.random() < .5)
    try:
        d = datetime.date(x["y"], x["m"], x["d"]) + datetime.timedelta(days=rng.choice([-1, 0, 1, 28, -30, 365]))
        return dict(k="iso", y=d.year, m=d.month, d=d.day)
    except ValueError:
        return rand_expr(rng)


def model_confs(res, edits, circle):
    r = tlc("ConfModel", cfg("ConfSpec", dict(MaxEdits=edits, Circle=circle), ["BaseAccepted", "Anywhere", "ExtrasIgnored", "SourceOrder", "Emit"], view="ConfView"),
            workers=6, timeout=800, heap="6g")
    res.model(f"ConfModel/{edits}", r)
    out = {}
    for m in re.finditer(r'<<\s*"CONF",\s*(\d+),\s*"(.*?)"\s*>>', r["out"], re.S):
        t = json.loads('"' + m.group(2).replace("\n", "") + '"')
        out.setdefault(t, int(m.group(1)))
    if len(out) < 500:
        raise MachineryError("too few configurations")
    return [(n, fix(json.loads(t))) for t, n in sorted(out.items())]


def fix(c):
    # ToJson writes an empty function as an empty list
    for k in ("region", "splitting"):
        if c[k] == []:
            c[k] = {}
    return c


def rand_conf(rng):
    """a configuration on a fine lattice (unit 1/4 degree), well-formed or nearly"""
    C = 1440
    cw, ch = rng.choice([4, 8, 10, 20, 40, 6, 45, 7, 28, 44, 26]), rng.choice([4, 8, 10, 20, 6, 7, 11])
    nx, ny = rng.randrange(1, 5), rng.randrange(1, 4)
    if rng.random() < .1:
        cw = rng.choice([160, 288, 480, 240]); nx = C // cw
    s = rng.randrange(-300, 200)
    w = rng.choice([-720, rng.randrange(-720, 720), 720 - rng.randrange(1, cw * nx + 1)])
    e = norm_x(w + cw * nx, C)
    if (e == -720 and rng.random() < .8) or (w == -720 and cw * nx == C):
        e = 720
    n = s + ch * ny
    if cw * nx == C:
        w, e = -720, 720
    r = rng.random()
    if r < .12:
        cw += rng.choice([1, -1, 2])
    elif r < .24:
        ch += rng.choice([1, -1, 2])
    elif r < .32:
        n += rng.choice([1, -1])
    elif r < .4 and (w, e) != (-720, 720):
        e2 = e + rng.choice([1, -1])
        if e2 != w:
            e = e2
    elif r < .44:
        w += C * rng.choice([-1, 1])
    elif r < .48:
        e += C * rng.choice([-1, 1])
    if s == n or w == 720 or (w - e) % C == 0 and (w, e) != (-720, 720):
        return rand_conf(rng)
    N = lambda v: dict(k="num", v=v)
    a = rand_expr(rng) if rng.random() < .5 else dict(k="iso", y=2020, m=2, d=29)
    b = near(a, rng)
    return dict(top=["region", "data_sources", "splitting"], okinds=dict(region="obj", data_sources="list", splitting="obj"),
                region=dict(lat_min=N(s), lat_max=N(n), long_min=N(w), long_max=N(e), start_time=a, end_time=b, cell_width=N(cw), cell_height=N(ch)),
                splitting=dict(split_depth=dict(k="int"), minimum_datapoints=dict(k="int")), sources=[])


def check_conf(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    rng = random.Random(seed)
    jobs = []
    if pid == "P13":
        boxes = model_boxes(res, 16 if thorough else 12, 3 if thorough else 2)
        res.extra["boxes_enumerated_by_tlc"] = len(boxes)
        unit = {12: "30/4", 16: "90/16"}[16 if thorough else 12]
        big = [[4 * v for v in b] for b in boxes]
        jobs += [("box", dict(unit=unit, seed=rng.randrange(10 ** 9), boxes=c)) for c in chunks(big, 60)]
        for u, H in (("1/4", 360), ("1/64", 5000), ("1/1024", 90000), ("5/2", 36), ("1/4096", 300000)):
            C = int(360 / Fraction(u))
            bs = [rand_box(rng, C, H) for _ in range(4000 if thorough else 400)]
            jobs += [("box", dict(unit=u, seed=rng.randrange(10 ** 9), boxes=c)) for c in chunks(bs, 60)]
        n = 40000 if thorough else 4000
        items = [[rand_expr(rng)] for _ in range(n)]
        items += [(lambda a: [a, near(a, rng)] if rng.random() < .5 else [near(a, rng), a])(rand_expr(rng)) for _ in range(n)]
        items += [[dict(k="junk")] for _ in range(200)]
        jobs += [("date", dict(seed=rng.randrange(10 ** 9), items=c)) for c in chunks(items, 200)]
    else:
        confs = model_confs(res, 2, 24)
        res.extra["configurations_in_model"] = len(confs)
        one = [c for n, c in confs if n <= 1]
        two = [c for n, c in confs if n > 1]
        rng.shuffle(two)
        two = two[:40000 if thorough else 4500]
        use = one + two
        res.extra["configurations_replayed"] = len(use)
        jobs += [("conf", dict(unit="15", seed=rng.randrange(10 ** 9), confs=c)) for c in chunks(use, 40)]
        rc = [rand_conf(rng) for _ in range(20000 if thorough else 1500)]
        jobs += [("conf", dict(unit="1/4", seed=rng.randrange(10 ** 9), confs=c)) for c in chunks(rc, 40)]
    traces = []
    for (k, sc), (s, tr) in zip(jobs, run_pool(run_any, jobs, 240)):
        if s != "ok":
            tr = dict(C=8, steps=[dict(op="timeout", ok=False, err="timeout")])
        traces.append(tr)
    # one trace per item: a violation does not hide the next one
    flat = [dict(C=t["C"], steps=[s]) for t in traces for s in t["steps"]]
    origin = [(j, i) for j, t in zip(jobs, traces) for i in range(len(t["steps"]))]
    v = validate("ConfTrace", flat)
    res.judged(flat, *v, [dict(kind=t["steps"][0]["op"], shown=t["steps"][0].get("shown") or t["steps"][0].get("text") or t["steps"][0].get("box"), job=j, at=i)
                          for t, (j, i) in zip(flat, origin)])
    res.extra["accepted"] = sum(1 for t in flat if t["steps"][0].get("built") or t["steps"][0].get("ok"))
    res.extra["refused"] = len(flat) - res.extra["accepted"]
    if min(res.extra["accepted"], res.extra["refused"]) < len(flat) // 50 and not v[0]:
        raise MachineryError("vacuous: almost everything was accepted or refused")
    return res


def run_any(job):
    k, sc = job
    return {"box": run_boxes, "date": run_dates, "conf": run_confs}[k](sc)


def replay_run(sc):
    t = run_any(sc["job"])
    return dict(C=t["C"], steps=[t["steps"][sc["at"]]])
