"""Writing, reading, exporting, rebuilding: P09, P15, P16 (trace specification IOTrace)."""
import os, sys, json, math, random, tempfile, shutil, copy, io, contextlib
from fractions import Fraction
from common import *
from mesh import Grid, GEN_GRIDS, RAND_GRIDS, mesh_json, rect_of_bounds, rect_of_wkt, strkeys, err, random_cells, finer, random_merge, norm_x, DIRS
import build

GEO_KEYS = ("geometry", "cx", "cy", "dcx", "dcy", "id")


class Tokens:
    """opaque integers for numbers, texts and configurations of one trace"""
    def __init__(self):
        self.t = {}

    def __call__(self, kind, v):
        return self.t.setdefault((kind, v), len(self.t) + 1)

    def value(self, v):
        if v is None:
            return ["null", 0]
        if isinstance(v, bool):
            return ["true" if v else "false", 0]
        if isinstance(v, int):
            return ["int", self("num", float(v))]
        if isinstance(v, float):
            if math.isnan(v):
                return ["nan", 0]
            if math.isinf(v):
                return ["inf", 1 if v > 0 else 2]
            return ["float", self("num", v)]
        if isinstance(v, str):
            return ["str", self("str", v)]
        if isinstance(v, list):     # numbers (short, dyadic: their mean is exact)
            return ["list", self("list", json.dumps(v)), self("num", sum(v) / len(v))]
        return ["other", self("json", json.dumps(v, sort_keys=True, default=repr))]

    def shown(self, v):
        if v is None:
            return ["null", 0]
        if isinstance(v, bool):
            return ["bool", int(v)]
        if isinstance(v, (int, float)):
            return ["num", self("num", float(v))]
        return self.value(v)

    def config(self, cfgd, bounds):
        return self("cfg", json.dumps([cfgd, bounds], sort_keys=True, default=str))


def nbs(graph, i):
    m = graph.get(str(i), {})
    out = [sorted(str(n) for n in m.get(d, [])) for d in DIRS]
    if set(m) != set(DIRS):
        out[0] = out[0] + ["?"]
    return out


def obs_mem(m, g, tok):
    graph = strkeys(m.neighbour_graph.get_graph())
    cells = []
    for c in m.agg_cellboxes:
        b = c.get_bounds()
        r = rect_of_bounds(b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max(), g)
        if r is None:
            return None
        cells.append(dict(id=str(c.get_id()), rect=r, vals={k: tok.value(v) for k, v in c.get_agg_data().items() if k != "id"}, nb=nbs(graph, c.get_id())))
    if set(graph) != {c["id"] for c in cells}:
        return None
    b = m.bounds
    return dict(cells=cells, cfg=tok.config(json.loads(json.dumps(m.config)), [float(v) for v in b.lat_range] + [float(v) for v in b.long_range]))


def obs_doc(j, g, tok):
    graph = strkeys(j["neighbour_graph"])
    cells, centre = [], True
    S = 1 / g.u
    for c in j["cellboxes"]:
        r = rect_of_wkt(c["geometry"], g)
        if r is None:
            return None, False
        x, y, w, h = r
        cx = lat_int(c["cx"], 2 * S)
        centre = centre and cx is not None and abs(cx) <= g.C and (norm_x(cx, 2 * g.C), lat_int(c["cy"], 2 * S), lat_int(c["dcx"], 2 * S), lat_int(c["dcy"], 2 * S)) \
            == (norm_x(2 * x + w, 2 * g.C), 2 * y + h, w, h)
        cells.append(dict(id=str(c["id"]), rect=r, vals={k: tok.value(v) for k, v in c.items() if k not in GEO_KEYS}, nb=nbs(graph, c["id"])))
    if set(graph) != {c["id"] for c in cells}:
        return None, False
    reg = j["config"]["mesh_info"]["region"]
    return dict(cells=cells, cfg=tok.config(j["config"]["mesh_info"], [float(reg[k]) for k in ("lat_min", "lat_max", "long_min", "long_max")])), centre


NODOC = dict(cells=[], cfg=0)
KINDS = ["float", "int", "bool", "nan", "inf", "str", "big", "list"]
SHOWN_KINDS = [k for k in KINDS if k != "str"]


def rand_val(kind, rng):
    if kind == "float":
        return rng.choice([rng.uniform(-9, 9), round(rng.uniform(-9, 9), 2), 0.0, 1e-12, 1 / 3])
    if kind == "int":
        return rng.randrange(-50, 50)
    if kind == "bool":
        return rng.random() < .5
    if kind == "nan":
        return float("nan") if rng.random() < .4 else rng.uniform(-5, 5)
    if kind == "inf":
        return rng.choice([float("inf"), float("-inf"), 2.5, float("nan"), -7.25])
    if kind == "list":
        return [rng.randrange(-40, 40) / 4 for _ in range(rng.choice([1, 2, 4, 8]))]
    if kind == "big":
        return rng.choice([1e300, -1e-300, 123456789.123456, 2.0 ** 60])
    return rng.choice(["a", "b c", "nan", "inf", "1"])


def add_values(j, cols, rng):
    for c in j["cellboxes"]:
        i = c.pop("id")
        c.pop("v", None)
        for n, k in cols:
            c[n] = rand_val(k, rng)
        c["id"] = i
    return j


def save_quiet(m, path, fmt, par=None):
    m.save(path, fmt, par) if par else m.save(path, fmt)


def run_io(sc):
    """sc: grid, seed, start ('given' | 'built'), ops, cols"""
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    from shapely.geometry import shape
    g = Grid(*sc["grid"])
    rng = random.Random(sc["seed"])
    tok = Tokens()
    cols = sc["cols"]
    trace = dict(one=tok("num", 1.0), steps=[])
    st = trace["steps"]
    d = tempfile.mkdtemp(prefix="io_", dir=scratch())
    try:
        # -- the mesh to start with
        doc0 = NODOC
        try:
            if sc["start"] == "built":
                sub = os.path.join(d, "b")
                os.mkdir(sub)
                from meshiphi.mesh_generation.mesh_builder import MeshBuilder
                loaded = [build.write_source(s, g, sub, i) for i, s in enumerate(sc["sources"])]
                m = MeshBuilder(build.config_of(sc, g, loaded)).build_environmental_mesh()
            else:
                cells = random_cells(g, rng, sc["pre"], 2)
                rng.shuffle(cells)
                ids = [str(i) for i in rng.sample(range(len(cells) * 2), len(cells))]
                j = add_values(mesh_json(g, cells, [0] * len(cells), ids, depth=3), cols, rng)
                doc0 = obs_doc(json.loads(json.dumps(j)), g, tok)[0]
                if doc0 is None:
                    raise MachineryError("harness wrote a mesh it cannot read")
                m = EnvironmentMesh.load_from_json(json.loads(json.dumps(j)))
            mem = obs_mem(m, g, tok)
            st.append(dict(op="start", ok=True, lattice=mem is not None, given=sc["start"] != "built", mem=mem or NODOC, doc=doc0))
        except MachineryError:
            raise
        except Exception as e:
            st.append(dict(op="start", ok=False, err=err(e), lattice=True, given=False, mem=NODOC, doc=NODOC))
            return trace
        text = None
        for op in sc["ops"]:
            if not st[-1]["lattice"]:
                break
            s = dict(op=op)
            try:
                if op in ("write", "save"):
                    if op == "write":
                        j = m.to_json()
                        text = json.dumps(j)
                    else:
                        p = os.path.join(d, f"m{len(st)}.json")
                        save_quiet(m, p, rng.choice(["JSON", "json", "Json"]))
                        text = open(p).read()
                        j = json.loads(text)
                    dc, ce = obs_doc(json.loads(text), g, tok)
                    s.update(doc=dc or NODOC, centre=ce, raw=tok("raw", json.dumps(json.loads(text), sort_keys=True)), docok=dc is not None)
                elif op == "read":
                    m = EnvironmentMesh.load_from_json(json.loads(text))
                elif op == "split":
                    cands = [r for r in m.agg_cellboxes if (lambda q: q and q[2] % 2 == 0 and q[3] % 2 == 0)(rect_of_bounds(
                        r.get_bounds().get_lat_min(), r.get_bounds().get_lat_max(), r.get_bounds().get_long_min(), r.get_bounds().get_long_max(), g))]
                    if not cands:
                        continue
                    m.split_and_replace(str(rng.choice(cands).get_id()))
                elif op == "merge":
                    if g.wraps() and g.nx < 3:
                        continue
                    for _ in range(40):
                        spec = random_merge(g, sc["grid"], rng)
                        g2 = Grid(*spec["grid"])
                        if g2.w == g.w and g2.h == g.h and (norm_x(g2.x - g.x, g.C) % g.w, (g2.y - g.y) % g.h) == (0, 0) and not (g2.wraps() and g2.nx < 3):
                            break
                    else:
                        continue
                    r2 = random.Random(spec["seed"])
                    c2 = random_cells(g2, r2, spec["pre"], 2)
                    m.merge_mesh(EnvironmentMesh.load_from_json(json.loads(json.dumps(add_values(mesh_json(g2, c2, [0] * len(c2), depth=3), cols, r2)))))
                elif op == "update":
                    k = rng.randrange(len(m.agg_cellboxes))
                    u = {n: rand_val(kd, rng) for n, kd in cols if rng.random() < .6}
                    if rng.random() < .3:
                        u["extra"] = rand_val("float", rng)
                    m.update_cellbox(k, dict(u))
                    s.update(k=k + 1, vals={n: tok.value(v) for n, v in u.items()})
                elif op == "badupdate":
                    s["refused"] = False
                    try:
                        m.update_cellbox(rng.choice([len(m.agg_cellboxes), len(m.agg_cellboxes) + 3, -1]), {"q": 1})
                    except ValueError:
                        s["refused"] = True
                elif op == "geojson":
                    par, only = None, ""
                    if rng.random() < .4:
                        names = sorted({n for c in m.agg_cellboxes for n in c.get_agg_data()})
                        if names:
                            only = rng.choice(names)
                            par = os.path.join(d, f"p{len(st)}.json")
                            json.dump({"data_name": only}, open(par, "w"))
                    gj = m.to_geojson(par) if par else m.to_geojson()
                    feats, okf = [], gj.get("type") == "FeatureCollection"
                    for f in gj["features"]:
                        pr = dict(f["properties"])
                        i = pr.pop("id", None)
                        r = rect_of_wkt(shape(f["geometry"]).wkt, g)
                        if r is None or i is None:
                            okf = False
                        feats.append(dict(id=str(i), rect=r or [0, 0, 0, 0], vals={n: tok.shown(v) for n, v in pr.items()}))
                    p = os.path.join(d, f"g{len(st)}.json")
                    via = rng.random()
                    if via < .6:
                        save_quiet(m, p, rng.choice(["GEOJSON", "geojson", "GeoJSON", "Geojson"]), par)
                    else:
                        mp_ = os.path.join(d, f"x{len(st)}.json")
                        json.dump(m.to_json(), open(mp_, "w"))
                        cli("export_mesh_cli", [mp_, rng.choice(["GEOJSON", "geojson"]), "-o", p] + (["-f", par] if par else []))
                    s.update(features=feats, only=only, filed=okf and os.path.exists(p) and canon(json.load(open(p))) == canon(gj))
                elif op == "savefile":
                    p = os.path.join(d, f"s{len(st)}.json")
                    if rng.random() < .6:
                        save_quiet(m, p, rng.choice(["JSON", "json", "Json"]))
                    else:
                        mp_ = os.path.join(d, f"y{len(st)}.json")
                        json.dump(m.to_json(), open(mp_, "w"))
                        cli("export_mesh_cli", [mp_, rng.choice(["JSON", "json"]), "-o", p])
                    dc, ce = obs_doc(json.load(open(p)), g, tok)
                    s.update(doc=dc or NODOC, filed=ce and canon(json.load(open(p))) == canon(m.to_json()), docok=dc is not None)
                elif op == "unsupported":
                    p = os.path.join(d, f"u{len(st)}.out")
                    try:
                        m.save(p, rng.choice(["XML", "csv", "JSONL", "GEO", ""]))
                    except Exception:
                        pass
                    s["written"] = os.path.exists(p)
                mem = obs_mem(m, g, tok)
                s.update(ok=True, lattice=mem is not None and s.pop("docok", True), mem=mem or NODOC)
            except Exception as e:
                s.update(ok=False, err=err(e), lattice=True, mem=NODOC)
                for k, v in (("doc", NODOC), ("raw", 0)):
                    s.setdefault(k, v)
            st.append(s)
            if not s["ok"]:
                break
        return trace
    finally:
        shutil.rmtree(d, ignore_errors=True)


def canon(o):
    return json.dumps(o, sort_keys=True)


def cli(fn, args):
    import meshiphi.cli as c
    old = sys.argv
    sys.argv = [fn] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            getattr(c, fn)()
    except SystemExit as e:
        raise RuntimeError(f"exit {e.code}")
    finally:
        sys.argv = old


# --------------------------------------------------------------------------
# P16: the same input in different wrappings
TILED = ("gebco", "bsose_sic", "northsea_currents", "baltic_currents")


def arrangement(sc, how, g, d, seed):
    """write the sources; how: plain, parts, folder, file, permuted"""
    rng = random.Random(seed)
    loaded = []
    for i, s in enumerate(sc["sources"]):
        sub = os.path.join(d, f"src{i}")
        os.mkdir(sub)
        s = copy.deepcopy(s)
        tab = s["loader"] in ("scalar_csv", "vector_csv")
        s.pop("parts", None)
        if tab and how in ("permuted", "folder"):
            s["perm"] = rng.randrange(10 ** 6)
        if tab and how in ("parts", "folder") and len(s["pts"]) >= 3:
            s["parts"] = rng.choice([2, 3])
        if isinstance(how, list):       # an arrangement of the model: row numbers by file
            s["spread"] = [[r - 1 for r in f] for f in how]
        if s["loader"] in build.LUTS and how in ("parts", "folder") and len(s["polys"]) >= 2:
            s["parts"] = 2
        if s["loader"] in TILED and how in ("parts", "folder"):
            s["tiles"] = rng.randrange(4)
        k, p = build.write_source(s, g, sub, i)
        if how == "folder":
            p["folder"] = os.path.dirname(p["files"][0]) + rng.choice(["", "/"])
            del p["files"]
        elif how == "file" and len(p["files"]) == 1:
            p["file"] = p["files"][0]
            del p["files"]
        if how == "permuted":
            k = rng.choice([k, k.upper(), k.capitalize()])
        loaded.append((k, p))
    return build.config_of(sc, g, loaded)


def obs_build(j, sc, g, tok):
    """cells with ids, rectangles, values (as rationals) and neighbours"""
    o, mo = build.observe(j, sc, g)
    if not o["lattice"]:
        return None
    graph = strkeys(j["neighbour_graph"])
    vs, names = build.spec_vars(sc)
    cells = []
    for c, r, v in zip(j["cellboxes"], o["cells"], o["vals"]):
        extra = sorted(k for k in c if k not in GEO_KEYS and k not in names)
        cells.append(dict(id=str(c["id"]), rect=r, vals={n: ["q", tok("q", tuple(x))] for n, x in zip(names, v)} | {e: ["extra", 0] for e in extra}, nb=nbs(graph, c["id"])))
    return dict(cells=cells, cfg=0)


def run_same(sc):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    g = Grid(*sc["grid"])
    tok = Tokens()
    trace = dict(one=0, steps=[])
    st = trace["steps"]
    d = tempfile.mkdtemp(prefix="sm_", dir=scratch())
    stored = None
    try:
        for n, how in enumerate(sc["hows"]):
            s = dict(op="build", how=how if isinstance(how, str) else "model")
            sub = os.path.join(d, str(n))
            os.mkdir(sub)
            try:
                if how == "stored":
                    j = MeshBuilder(copy.deepcopy(stored)).build_environmental_mesh().to_json()
                elif how == "rebuild cli":
                    src, out = os.path.join(sub, "in.json"), os.path.join(sub, "out.json")
                    json.dump(last, open(src, "w"))
                    cli("rebuild_mesh_cli", [src, "-o", out])
                    j = json.load(open(out))
                elif how == "cli":
                    c, out = os.path.join(sub, "c.json"), os.path.join(sub, "out.json")
                    json.dump(arrangement(sc, "plain", g, sub, sc["seed"]), open(c, "w"))
                    cli("create_mesh_cli", [c, "-o", out])
                    j = json.load(open(out))
                elif how == "saved":
                    m = MeshBuilder(arrangement(sc, "plain", g, sub, sc["seed"])).build_environmental_mesh()
                    out = os.path.join(sub, "out.json")
                    m.save(out)
                    j = json.load(open(out))
                else:
                    j = MeshBuilder(arrangement(sc, how, g, sub, sc["seed"] + n)).build_environmental_mesh().to_json()
                last = json.loads(json.dumps(j))
                stored = last["config"]["mesh_info"]
                o = obs_build(last, sc, g, tok)
                s.update(ok=True, lattice=o is not None, mem=o or NODOC)
            except Exception as e:
                s.update(ok=False, err=err(e), lattice=True, mem=NODOC)
            st.append(s)
            if not s["ok"]:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return trace


HOWS = ["plain", "parts", "folder", "file", "permuted", "stored", "rebuild cli", "cli", "saved"]


def gen_same(n, seed):
    rng = random.Random(seed)
    out = []
    for i, sc in enumerate(build.gen_scalar(n // 2, seed) + build.gen_vector(n // 4, seed + 1) + build.gen_lut(n // 8, seed + 2) + build.gen_curl(n // 8, seed + 3)):
        sc["hows"] = ["plain"] + rng.sample(HOWS[1:], 4)
        sc["seed"] = rng.randrange(10 ** 6)
        # ties: which of several vectors of equal magnitude is picked may depend on their order
        if any(len(s["names"]) == 2 and s["agg"] in ("MIN", "MAX") for s in sc["sources"]):
            sc["hows"] = [h for h in sc["hows"] if h not in ("parts", "folder", "permuted")]
        out.append(sc)
    return out


def model_arrangements(res, nfiles, rng, most):
    """all arrangements of the model's tables; each trace: the first arrangement, then some of the others"""
    r = tlc("ArrModel", cfg("ASpec", dict(NFiles=nfiles), ["Bag", "SameMesh", "Emit"]), workers=4, timeout=600)
    res.model(f"ArrModel/{nfiles}", r)
    hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
    base = {h["tab"]: build.from_spec(h["conf"][0], "arrangement") for h in hs if h["conf"]}
    for b in base.values():
        for s in b["sources"]:
            s["timed"] = True
    byt = {}
    for h in hs:
        byt.setdefault(h["tab"], []).append([list(f) for f in h["files"]])
    out = []
    for t, fs in sorted(byt.items()):
        rng.shuffle(fs)
        for k in range(0, min(len(fs), most), 6):
            out.append(dict(copy.deepcopy(base[t]), hows=["plain"] + fs[k:k + 6], seed=0))
    if len(out) < 50:
        raise MachineryError("too few arrangements")
    res.extra["arrangements_enumerated_by_tlc"] = len(hs)
    return out


# --------------------------------------------------------------------------
def model_ops(res, n):
    r = tlc("IOModel", cfg("IOSpec", dict(MaxOps=n), ["ReadBack", "Idempotent", "Emit"]), workers=4, timeout=600)
    res.model(f"IOModel/{n}", r)
    hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
    if len(hs) < 50:
        raise MachineryError("too few histories from IOModel")
    return hs


def io_scenario(rng, i, ops):
    kinds = SHOWN_KINDS if "geojson" in ops else KINDS
    name, gr = RAND_GRIDS[i % len(RAND_GRIDS)]
    gr = finer(gr, rng.choice([2, 4]))
    cols = [(n, k) for n, k in zip("pqrstuv", rng.sample(kinds, rng.randrange(1, 5)))]
    return dict(grid=gr, kind=name, seed=rng.randrange(10 ** 9), start="given", pre=rng.randrange(0, 4), ops=list(ops), cols=cols)


def built_scenario(sc, rng, ops):
    sc = dict(sc)
    names = [n for s in sc["sources"] for n in s["names"]]
    if "split" in ops:          # splitting is an operation of loaded meshes
        k = ops.index("split")
        ops = ops[:k] + ["write", "read"] + ops[k:]
    sc.update(start="built", seed=rng.randrange(10 ** 9), ops=list(ops), cols=[(n, "bool" if any(s.get("bool") and n in s["names"] for s in sc["sources"]) else rng.choice(["float", "nan"])) for n in dict.fromkeys(names)][:3])
    return sc


def rand_ops(rng, kinds, n):
    ops = [rng.choice(kinds) for _ in range(n)]
    out, written = [], False
    for o in ops:
        if o == "read" and not written:
            out.append("write")
        written = written or o in ("write", "save", "read")
        out.append(o)
    return out


def io_cost(t):
    return sum(len(s["mem"]["cells"]) + 2 for s in t["steps"])


def collect_io(fn, scen, limit=90):
    out = []
    for sc, (s, tr) in zip(scen, run_pool(fn, scen, limit)):
        out.append(tr if s == "ok" else dict(one=0, steps=[dict(op="start", ok=False, err="timeout", lattice=True, given=False, mem=NODOC, doc=NODOC)]))
    return out


def check_io(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    rng = random.Random(seed)
    if pid == "P16":
        scen = model_arrangements(res, 3 if thorough else 2, rng, 10 ** 6)
        scen += gen_same(2400 if thorough else 260, seed)
        traces = collect_io(run_same, scen)
        want = ["same"]
        res.extra["arrangements"] = {h: sum(1 for t in traces for s in t["steps"] if s.get("how") == h) for h in HOWS + ["model"]}
    else:
        want = ["io"] if pid == "P09" else ["geojson"]
        hs = model_ops(res, 5 if thorough else 4)
        if pid == "P15":
            hs = [h for h in hs if "geojson" in h]
        if len(hs) > (9000 if thorough else 1500):
            rng.shuffle(hs)
            hs = hs[:9000 if thorough else 1500]
        scen = [io_scenario(rng, i, h) for i, h in enumerate(hs)]
        res.extra["histories_enumerated_by_tlc"] = len(scen)
        kinds = {"P09": ["write", "save", "read", "split", "merge", "update", "badupdate", "read", "write"],
                 "P15": ["geojson", "geojson", "savefile", "unsupported", "split", "merge", "update", "read"]}[pid]
        n = 3000 if thorough else 300
        scen += [io_scenario(rng, i, rand_ops(rng, kinds, 8)) for i in range(n)]
        k = n // 4
        src = build.gen_scalar(k, seed + 5) + build.gen_vector(k // 2, seed + 6) + build.gen_lut(k // 2, seed + 7)
        scen += [built_scenario(s, rng, rand_ops(rng, [o for o in kinds if o != "merge"], 6)) for s in src]
        traces = collect_io(run_io, scen)
        res.extra["operations"] = {o: sum(1 for t in traces for s in t["steps"] if s["op"] == o) for o in
                                   ("write", "save", "read", "split", "merge", "update", "badupdate", "geojson", "savefile", "unsupported")}
    v = validate("IOTrace", traces, want, cost=io_cost)
    res.judged(traces, *v, scen)
    return res
