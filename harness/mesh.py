"""Meshes as objects: splitting while building, loaded meshes, splitting, merging, queries.
Properties P01, P02, P10, P11, P12 (trace specification MeshTrace)."""
import json, math, random, copy, re, os, shutil, tempfile
from fractions import Fraction
from common import *

# --------------------------------------------------------------------------
# A grid of initial cells.  u = degrees per lattice unit.
class Grid:
    def __init__(self, x, y, w, h, nx, ny, u=1):
        self.x, self.y, self.w, self.h, self.nx, self.ny = x, y, w, h, nx, ny
        self.u = Fraction(u)
        self.C = int(360 / self.u)
        assert self.C * self.u == 360

    def deg(self, v):
        f = Fraction(v) * self.u
        return int(f) if f.denominator == 1 else float(f)

    def scaled(self, k):
        """the same grid on a lattice k times finer"""
        return Grid(self.x * k, self.y * k, self.w * k, self.h * k, self.nx, self.ny, self.u / k)

    @property
    def base(self):
        return dict(x=norm_x(self.x, self.C), y=self.y, w=self.w, h=self.h, nx=self.nx, ny=self.ny)

    def region(self, **kw):
        lo, hi = self.lon(self.x), self.lon_end(self.x, self.nx * self.w)
        return dict(lat_min=self.deg(self.y), lat_max=self.deg(self.y + self.ny * self.h),
                    long_min=lo, long_max=hi, start_time="2020-01-01", end_time="2020-01-10",
                    cell_width=self.deg(self.w), cell_height=self.deg(self.h), **kw)

    def lon(self, x):
        return self.deg(norm_x(x, self.C))

    def lon_end(self, x, w):
        """eastern end as users write it: 180, not -180"""
        e = norm_x(x + w, self.C)
        return 180 if e == -self.C // 2 else self.deg(e)

    def config(self, sources=(), depth=9, mindp=1):
        return dict(region=self.region(), data_sources=list(sources),
                    splitting=dict(split_depth=depth, minimum_datapoints=mindp))

    def initial(self):
        return [(norm_x(self.x + i * self.w, self.C), self.y + j * self.h, self.w, self.h)
                for j in range(self.ny) for i in range(self.nx)]

    def wraps(self):
        return self.nx * self.w == self.C


def quarters(c, C):
    x, y, w, h = c
    w2, h2 = w // 2, h // 2
    return [(x, y + h2, w2, h2), (norm_x(x + w2, C), y + h2, w2, h2), (x, y, w2, h2), (norm_x(x + w2, C), y, w2, h2)]


def dirs(a, b, C):
    """geometric adjacency; used only to *construct* input meshes, TLC re-checks them"""
    e = (a[0] + a[2] - b[0]) % C == 0
    w = (b[0] + b[2] - a[0]) % C == 0
    ox = (b[0] - a[0]) % C < a[2] or (a[0] - b[0]) % C < b[2]
    n = a[1] + a[3] == b[1]
    s = b[1] + b[3] == a[1]
    oy = b[1] < a[1] + a[3] and b[1] + b[3] > a[1]
    r = []
    if e and n: r.append("1")
    if e and oy: r.append("2")
    if e and s: r.append("3")
    if s and ox: r.append("4")
    if w and s: r.append("-1")
    if w and oy: r.append("-2")
    if w and n: r.append("-3")
    if n and ox: r.append("-4")
    return r


def wkt_of(c, g):
    x, y, w, h = c
    y0, y1 = float(g.deg(y)), float(g.deg(y + h))
    def poly(x0, x1):
        return f"(({x0} {y0}, {x0} {y1}, {x1} {y1}, {x1} {y0}, {x0} {y0}))"
    x0 = float(g.deg(x))
    if x + w <= g.C // 2:
        return "POLYGON " + poly(x0, float(g.deg(x + w)))
    return "MULTIPOLYGON (" + poly(x0, 180.0) + ", " + poly(-180.0, float(g.deg(x + w - g.C))) + ")"


def mesh_json(g, cells, vals, ids=None, depth=9, nominal=None):
    """A mesh file as MeshiPhi writes it, for the given rectangles."""
    ids = ids or [str(i) for i in range(len(cells))]
    cbs, ng = [], {}
    for c, v, i in zip(cells, vals, ids):
        x, y, w, h = c
        cx = norm_x(2 * x + w, 2 * g.C)
        cbs.append(dict(geometry=wkt_of(c, g), cx=float(Fraction(cx) * g.u / 2), cy=float(Fraction(2 * y + h) * g.u / 2),
                        dcx=float(Fraction(w) * g.u / 2), dcy=float(Fraction(h) * g.u / 2), v=v, id=i))
    for i, a in enumerate(cells):
        m = {d: [] for d in DIRS}
        for j, b in enumerate(cells):
            if b[1] <= a[1] + a[3] and a[1] <= b[1] + b[3]:
                for d in dirs(a, b, g.C):
                    m[d].append(int(ids[j]))
        ng[ids[i]] = m
    return dict(config=dict(mesh_info=(nominal or g).config(depth=depth)), cellboxes=cbs, neighbour_graph=ng)


# --------------------------------------------------------------------------
# observation
def rect_of_bounds(lat0, lat1, lon0, lon1, g):
    S = 1 / g.u
    x0, x1, y0, y1 = (lat_int(v, S) for v in (lon0, lon1, lat0, lat1))
    if None in (x0, x1, y0, y1):
        return None
    if not (-g.C // 2 <= x0 <= g.C // 2 and -g.C // 2 <= x1 <= g.C // 2):
        return None
    w = (x1 - x0) % g.C or g.C
    return [norm_x(x0, g.C), y0, w, y1 - y0]


NUM = re.compile(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def rect_of_wkt(s, g):
    """rectangle described by the WKT of one rectangle, or two across the antimeridian"""
    try:
        rings = []
        for part in re.findall(r"\(([^()]*)\)", s):
            pts = [tuple(float(v) for v in q.split()) for q in part.split(",")]
            xs, ys = [p[0] for p in pts], [p[1] for p in pts]
            box = {(a, b) for a in (min(xs), max(xs)) for b in (min(ys), max(ys))}
            if set(pts) != box or len(pts) != 5 or pts[0] != pts[-1]:
                return None
            if any(a[0] != b[0] and a[1] != b[1] for a, b in zip(pts, pts[1:])):
                return None
            rings.append((min(xs), max(xs), min(ys), max(ys)))
        if len(rings) == 1 and s.startswith("POLYGON"):
            x0, x1, y0, y1 = rings[0]
            if x1 <= x0:
                return None
            return rect_of_bounds(y0, y1, x0, x1, g)
        if len(rings) == 2 and s.startswith("MULTIPOLYGON"):
            a, b = rings if rings[0][1] == 180.0 else rings[::-1]
            if a[1] != 180.0 or b[0] != -180.0 or a[2:] != b[2:]:
                return None
            return rect_of_bounds(a[2], a[3], a[0], b[1], g)
    except (ValueError, IndexError):
        pass
    return None


def finish_obs(rects, ids, vals, graph, g, centre=True):
    """graph: dict id(str) -> {dir(str): [ids]}"""
    lattice = all(r is not None for r in rects)
    o = dict(lattice=lattice, centre=bool(centre), keys=True, cells=[], ids=[], vals=[], graph=[])
    if not lattice:
        return o
    idx, ok = {}, True
    num = []
    for i, v in enumerate(ids, 1):
        try:
            num.append(int(v))
        except (TypeError, ValueError):
            num.append(-i)
            ok = False
        idx.setdefault(str(v), i)
    o["cells"], o["ids"], o["vals"] = rects, num, vals
    ok = ok and set(graph) == {str(v) for v in ids}
    gl = []
    for v in ids:
        m = graph.get(str(v), {})
        if set(m) != set(DIRS):
            ok = False
        gl.append([[idx.get(str(n), 0) for n in m.get(d, [])] for d in DIRS])
    o["graph"], o["keys"] = gl, ok
    return o


def strkeys(graph):
    return {str(k): {str(d): list(v) for d, v in m.items()} for k, m in graph.items()}


def obs_builder(b, g):
    rects, ids = [], []
    for c in b.mesh.cellboxes:
        if c is None:
            continue
        bd = c.get_bounds()
        rects.append(rect_of_bounds(bd.get_lat_min(), bd.get_lat_max(), bd.get_long_min(), bd.get_long_max(), g))
        ids.append(c.get_id())
    return finish_obs(rects, ids, [0] * len(ids), strkeys(b.neighbour_graph.get_graph()), g)


def obs_json(j, g, name="v"):
    rects, ids, vals, centre = [], [], [], True
    S = 1 / g.u
    for c in j["cellboxes"]:
        r = rect_of_wkt(c["geometry"], g)
        rects.append(r)
        ids.append(c["id"])
        v = c.get(name, -BADINT)
        vals.append(v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < BADINT else
                    (int(v) if isinstance(v, float) and v == int(v) and abs(v) < BADINT else -BADINT))
        if r is not None:
            x, y, w, h = r
            want = (norm_x(2 * x + w, 2 * g.C), 2 * y + h, w, h)
            cx = lat_int(c["cx"], 2 * S)
            got = (None if cx is None or abs(cx) > g.C else norm_x(cx, 2 * g.C), lat_int(c["cy"], 2 * S),
                   lat_int(c["dcx"], 2 * S), lat_int(c["dcy"], 2 * S))
            centre = centre and got == want
    return finish_obs(rects, ids, vals, strkeys(j["neighbour_graph"]), g, centre)


NOOBS = dict(lattice=True, centre=True, keys=True, cells=[], ids=[], vals=[], graph=[])


def err(e):
    return (type(e).__name__ + ": " + str(e))[:200]


# --------------------------------------------------------------------------
# replay: a history of splits through MeshBuilder
def run_builder_history(sc):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    g = Grid(*sc["grid"])
    trace = dict(C=g.C, base=g.base, maxd=sc["maxd"], tiles=True, grid=True, steps=[])
    st = trace["steps"]
    try:
        b = MeshBuilder(g.config(depth=sc["maxd"]))
        o = obs_builder(b, g)
        st.append(dict(op="init", ok=True, obs=o))
    except Exception as e:
        st.append(dict(op="init", ok=False, err=err(e), obs=NOOBS))
        return trace
    rng = random.Random(sc.get("seed", 0))
    hist = sc.get("hist")
    n = len(hist) if hist is not None else sc["nsplits"]
    for k in range(n):
        o = st[-1]["obs"]
        if not o["lattice"]:
            break
        live = [c for c in b.mesh.cellboxes if c is not None]
        rect = {tuple(r): c for r, c in zip(o["cells"], live)}
        if hist is not None:
            cell = tuple(hist[k])
            if cell not in rect:      # an earlier step went wrong; it has its verdict
                break
        else:
            cands = [r for r in rect if r[2] * 2 ** sc["maxd"] > g.w]
            if not cands:
                break
            # prefer small cells now and then, to get deep contrasts
            cands.sort(key=lambda r: (r[2], r[0], r[1]))
            cell = cands[rng.randrange(max(1, len(cands) // 3))] if rng.random() < .5 else rng.choice(cands)
        s = dict(op="split", cell=list(cell))
        try:
            b.split_and_replace(rect[cell])
            s.update(ok=True, obs=obs_builder(b, g))
        except Exception as e:
            s.update(ok=False, err=err(e), obs=NOOBS)
        st.append(s)
        if not s["ok"]:
            break
    return trace


def merge_by_command(m, m2, how):
    """merging two mesh files on the command line: a file, or all files of a folder"""
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    import io_
    d = tempfile.mkdtemp(prefix="mc_", dir=scratch())
    try:
        os.makedirs(os.path.join(d, "second"))
        f1, f2, out = os.path.join(d, "one.json"), os.path.join(d, "second", "two.json"), os.path.join(d, "out.json")
        json.dump(m.to_json(), open(f1, "w"))
        json.dump(m2.to_json(), open(f2, "w"))
        io_.cli("merge_mesh_cli", [f1, f2, "-o", out] if how == "file" else [f1, os.path.join(d, "second"), "-d", "-o", out])
        return EnvironmentMesh.load_from_json(json.load(open(out))), EnvironmentMesh.load_from_json(json.load(open(f2)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# loaded meshes
def random_cells(g, rng, nsplits, maxd):
    cells = g.initial()
    for _ in range(nsplits):
        cands = [i for i, c in enumerate(cells) if c[2] * 2 ** maxd > g.w]
        if not cands:
            break
        i = rng.choice(cands)
        c = cells.pop(i)
        cells += quarters(c, g.C)
    return cells


def random_points(g, cells, rng, n, nice=True):
    """points inside cells, on edges, on corners, outside the mesh"""
    pts = []
    H = g.C // 2
    ys = [c[1] for c in cells] + [c[1] + c[3] for c in cells]
    for _ in range(n):
        c = rng.choice(cells)
        k = rng.random()
        if k < .55:                                   # interior
            p = (c[0] + rng.randrange(1, c[2]), c[1] + rng.randrange(1, c[3])) if c[2] > 1 and c[3] > 1 else (c[0], c[1])
        elif k < .75:                                 # on an edge
            p = rng.choice([(c[0], c[1] + rng.randrange(0, c[3] + 1)), (c[0] + c[2], c[1] + rng.randrange(0, c[3] + 1)),
                            (c[0] + rng.randrange(0, c[2] + 1), c[1]), (c[0] + rng.randrange(0, c[2] + 1), c[1] + c[3])])
        elif k < .9:                                  # anywhere near
            p = (c[0] + rng.randrange(-c[2], 2 * c[2] + 1), c[1] + rng.randrange(-c[3], 2 * c[3] + 1))
        else:
            p = (rng.randrange(-H, H), rng.randrange(min(ys) - 3, max(ys) + 4))
        p = (norm_x(p[0], g.C), p[1])
        if p[0] == -H and rng.random() < .5:
            p = (H, p[1])                             # the other spelling of the same meridian
        if abs(p[1]) * g.u > 90:
            continue
        pts.append(list(p))
    return pts


def run_loaded(sc):
    """sc: grid, ids offset, cells/seed, list of op specs generated on the fly"""
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    g = Grid(*sc["grid"])
    rng = random.Random(sc["seed"])
    maxd = sc["maxd"]
    cells = [tuple(c) for c in sc["cells"]] if "cells" in sc else random_cells(g, rng, sc["pre"], maxd)
    if sc.get("shuffle", True) and "cells" not in sc:
        rng.shuffle(cells)
    vals = [rng.randrange(1, 10000) for _ in cells]
    if "idstep" in sc:
        ids = sorted(rng.sample(range(len(cells) * 3), len(cells)))
        if sc["idstep"] == "shuffled":
            rng.shuffle(ids)
        ids = [str(i) for i in ids]
    else:
        ids = [str(i) for i in range(len(cells))]
    # the cells on file may be finer in one axis than the configured ones (as after a merge)
    ax, ay = sc.get("aspect", (1, 1))
    nom = Grid(g.x, g.y, g.w * ax, g.h * ay, g.nx // ax, g.ny // ay, g.u)
    trace = dict(C=g.C, base=nom.base, maxd=12, tiles=not any(o[0] == "merge" for o in sc["ops"]), grid=False, steps=[])
    st = trace["steps"]
    try:
        m = EnvironmentMesh.load_from_json(mesh_json(g, cells, vals, ids, depth=sc.get("depth", maxd), nominal=nom))
        st.append(dict(op="init", ok=True, obs=obs_json(m.to_json(), g)))
    except Exception as e:
        st.append(dict(op="init", ok=False, err=err(e), obs=NOOBS))
        return trace
    for op in sc["ops"]:
        o = st[-1]["obs"]
        if not o["lattice"] or not o["cells"]:
            break
        live = [tuple(r) for r in o["cells"]]
        s = dict(op=op[0])
        try:
            if op[0] == "split":
                if len(op) > 1:
                    cell = tuple(op[1])
                    if cell not in live:
                        break
                else:
                    cands = [r for r in live if r[2] > 1 and r[3] > 1 and r[2] % 2 == 0 and r[3] % 2 == 0]
                    if not cands:
                        continue
                    cell = rng.choice(cands)
                s["cell"] = list(cell)
                m.split_and_replace(str(o["ids"][live.index(cell)]))
            elif op[0] == "points":
                pts = op[2] if len(op) > 2 else random_points(g, live, rng, op[1])
                s.update(pts=pts, mw=nom.w // 2 ** sc.get("depth", maxd), mh=nom.h // 2 ** sc.get("depth", maxd))
                m.split_points([(g.deg(p[1]), g.deg(p[0])) for p in pts])
            elif op[0] == "query":
                pts = op[2] if len(op) > 2 else random_points(g, live, rng, op[1])
                got, ins = [], []
                for p in pts:
                    la, lo = g.deg(p[1]), g.deg(p[0])
                    try:
                        i = str(m.query_index((la, lo)))
                        idl = [str(q) for q in o["ids"]]
                        got.append(idl.index(i) + 1 if i in idl else -2)
                    except Exception as e:
                        got.append(0 if "not within" in str(e) else -1)
                    ins.append(bool(m.query_inside_mesh((la, lo))))
                s.update(pts=pts, got=got, inside=ins)
            elif op[0] == "merge":
                spec = op[1]
                g2 = Grid(*spec["grid"])
                r2 = random.Random(spec["seed"])
                c2 = [tuple(c) for c in spec["cells"]] if "cells" in spec else random_cells(g2, r2, spec["pre"], spec["maxd"])
                v2 = [r2.randrange(10000, 20000) for _ in c2]
                m2 = EnvironmentMesh.load_from_json(mesh_json(g2, c2, v2, depth=spec["maxd"]))
                s["region"] = [norm_x(g2.x, g.C), g2.y, g2.nx * g2.w, g2.ny * g2.h]
                s["mesh2"] = obs_json(m2.to_json(), g)
                s["refused"], s["recorded"] = False, False
                before = json.loads(json.dumps(m2.config))
                n_before = len(m.config.get("merged", []))
                try:
                    if "cli" in spec:
                        m, m2 = merge_by_command(m, m2, spec["cli"])
                    else:
                        m.merge_mesh(m2)
                except AssertionError as e:
                    s["refused"] = True
                    s["err"] = err(e)
                # the id kept with a cell's data, where there is one, is the cell's id
                s["stored"] = all(str(c.get_agg_data().get("id", c.get_id())) == str(c.get_id()) for c in m.agg_cellboxes)
                s["mesh2after"] = obs_json(m2.to_json(), g)
                rec = m.config.get("merged", [])
                s["recorded"] = len(rec) == n_before + 1 and json.loads(json.dumps(rec[-1])) == before
            s.update(ok=True, obs=obs_json(m.to_json(), g))
        except Exception as e:
            s.update(ok=False, err=err(e), obs=NOOBS)
        for k in ("mesh2", "mesh2after"):
            if k in s and not s[k]["lattice"]:
                s["ok"] = False
        st.append(s)
        if not s["ok"]:
            break
    return trace


# --------------------------------------------------------------------------
# scenario generation
#  (x, y, w, h, nx, ny, degrees per unit)
GEN_GRIDS = [
    ("regional 2x2", (-20, -60, 8, 8, 2, 2, "1")),
    ("regional 3x1", (0, 0, 8, 4, 3, 1, "1/2")),
    ("regional 1x3", (24, 40, 8, 8, 1, 3, "1")),
    ("antimeridian 2x2", (172, -60, 8, 8, 2, 2, "1")),
    ("antimeridian straddling", (168, 20, 8, 8, 2, 2, "1")),
    ("touching 180", (164, 0, 8, 8, 2, 1, "1")),
    ("touching -180", (-180, 0, 8, 8, 2, 1, "1")),
    ("global 2x1", (-8, -4, 8, 4, 2, 1, "45/2")),
    ("global 2x2", (-8, -4, 8, 4, 2, 2, "45/2")),
    ("global 4x1", (-16, 0, 8, 8, 4, 1, "45/4")),
    ("global 4x2", (-16, -8, 8, 8, 4, 2, "45/4")),
]


def model_runs(res, ops=3, depth=2, grids=None, gen=True):
    """Model-check MeshModel on all grids; return the enumerated histories."""
    jobs, names = [], []
    for name, gr in grids or GEN_GRIDS:
        g = Grid(*gr)
        const = dict(X0=g.x % g.C, Y0=g.y + 1000, YBIAS=1000, CW=g.w, CH=g.h, NX=g.nx, NY=g.ny, CIRC=g.C, MaxDepth=depth, MaxOps=ops)
        inv = ["TypeOK", "Tiling", "DepthBound", "GraphExact", "Symmetric", "CornerUnique"]
        if gen:
            jobs.append((("MeshGen", cfg("GenSpec", const, inv + ["Emit"])), dict(timeout=700)))
        else:
            jobs.append((("MeshModel", cfg("Spec", const, inv)), dict(timeout=700)))
        names.append((name, gr))
    hists = []
    for (name, gr), r in zip(names, tlc_many(jobs)):
        res.model(f"MeshModel/{name}/ops={ops}", r)
        if gen:
            hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
            if not hs:
                raise MachineryError("no histories generated for " + name)
            hists += [dict(grid=gr, maxd=depth, hist=h, kind=name) for h in hs]
    return hists


RAND_GRIDS = GEN_GRIDS + [
    ("fractional cells", (-30, 20, 16, 8, 3, 2, "5/32")),
    ("antimeridian 3x2 straddling", (336, -80, 16, 16, 3, 2, "1/2")),
    ("global 3x1", (-24, -8, 16, 16, 3, 1, "15/2")),
    ("global 6x3", (-48, -24, 16, 16, 6, 3, "15/4")),
    ("single cell", (16, 16, 32, 32, 1, 1, "1/4")),
    ("tiny cells", (-83968, 250880, 32, 32, 2, 2, "1/4096")),
    ("antimeridian, seven degrees", (1384, 80, 56, 56, 3, 2, "1/8")),
    ("fine cells off the degree", (-6176, -6176, 32, 32, 2, 2, "5/512")),
    ("fine cells at the antimeridian", (18400, -6200, 32, 32, 3, 1, "5/512")),
    ("regional 11x5", (-80, -48, 16, 16, 11, 5, "1/2")),
    ("antimeridian 8x4", (304, 32, 16, 16, 8, 4, "1/2")),
    ("down to the pole", (-88, -180, 16, 16, 3, 2, "1/2")),
    ("up to the pole, antimeridian", (344, 148, 16, 16, 3, 2, "1/2")),
]


def finer(gr, k):
    x, y, w, h, nx, ny, u = gr
    return (x * k, y * k, w * k, h * k, nx, ny, str(Fraction(u) / k))


def builder_random(n, seed, maxd=4, nsplits=14):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        name, gr = RAND_GRIDS[i % len(RAND_GRIDS)]
        d = rng.choice([2, 3, maxd])
        out.append(dict(grid=finer(gr, 2 ** max(0, d - 2)), maxd=d, nsplits=rng.randrange(3, nsplits), seed=rng.randrange(10 ** 9), kind=name))
    return out


def trace_cost(t):
    return sum(4 + len(s["obs"]["cells"]) ** 2 for s in t["steps"])


def collect(fn, scenarios, limit=60, bad=None):
    """run all scenarios; hung ones become a trace with one failing step"""
    out = []
    for sc, (st, tr) in zip(scenarios, run_pool(fn, scenarios, limit)):
        if st != "ok":
            g = Grid(*sc["grid"])
            tr = dict(C=g.C, base=g.base, maxd=9, tiles=True, grid=False,
                      steps=[dict(op="init", ok=False, err="timeout", obs=NOOBS)])
        out.append(tr)
    return out


def check_builder(pid, tier, seed, want, relevant):
    res = Result(pid)
    hists = model_runs(res, ops=3)
    thorough = tier == "thorough"
    rng = random.Random(seed)
    if thorough:
        hists += model_runs(res, ops=4, grids=[g for g in GEN_GRIDS if g[0] not in ("global 4x2", "global 2x2")])
        rnd = builder_random(1500, seed, maxd=5, nsplits=26)
    else:
        rnd = builder_random(160, seed)
    rnd += [dict(grid=(-36, -18, 4, 4, 18, 9, "5"), maxd=2, nsplits=3, seed=seed, kind="global 20 degrees"),
            dict(grid=(160, -64, 8, 8, 12, 8, "1/2"), maxd=3, nsplits=5, seed=seed, kind="regional 12x8"),
            dict(grid=(1416, 100, 8, 4, 6, 16, "1/8"), maxd=3, nsplits=5, seed=seed, kind="antimeridian 6x16")]
    if thorough:
        rnd += [dict(grid=(-72, -36, 4, 4, 36, 18, "5/2"), maxd=2, nsplits=2, seed=seed, kind="global 10 degrees")]
    scen = hists + rnd
    traces = collect(run_builder_history, scen)
    v = validate("MeshTrace", traces, want, cost=trace_cost)
    res.judged(traces, *v, scen, relevant)
    res.extra["split_histories_enumerated_by_tlc"] = len(hists)
    res.extra["random_split_histories"] = len(rnd)
    # meshes refined by data, as users build them
    import build
    k = 8 if thorough else 1
    dd = build.gen_scalar(160 * k, seed + 11) + build.gen_curl(60 * k, seed + 12) + build.gen_lut(60 * k, seed + 13)
    _, mts = build.collect_builds(dd)
    v = validate("MeshTrace", mts, want + ["centre"] * ("tiling" in want), cost=trace_cost)
    res.judged(mts, *v, dd, relevant)
    res.extra["meshes_refined_by_data"] = len(dd)
    return res


# --------------------------------------------------------------------------
def apply_hist(g, hist):
    cells = g.initial()
    for c in hist:
        cells.remove(tuple(c))
        cells += quarters(tuple(c), g.C)
    return cells


MERGE_GRIDS = [   # name, grid, (MinI, MaxI, MinJ, MaxJ, MaxNX, MaxNY), splits
    ("regional 3x3", (-20, -60, 8, 8, 3, 3, "1"), (8, 12, 8, 12, 2, 2), 1),
    ("antimeridian 3x2", (164, -60, 8, 8, 3, 2, "1"), (8, 12, 9, 11, 2, 2), 1),
    ("straddling 3x2", (168, -60, 8, 8, 3, 2, "1"), (8, 12, 9, 11, 2, 2), 1),
    ("straddling, columns not dividing the circle", (168, -64, 16, 16, 2, 2, "1"), (8, 11, 9, 10, 2, 2), 1),
    ("global 4x2", (-8, -4, 4, 4, 4, 2, "45/2"), (9, 12, 9, 10, 4, 2), 1),
    ("regional 2x2 deep", (-20, -60, 8, 8, 2, 2, "1"), (9, 10, 9, 10, 1, 1), 2),
]


def merge_models(res, grids=None, extra=0):
    jobs = []
    grids = grids or MERGE_GRIDS
    for name, gr, (i0, i1, j0, j1, mx, my), pre in grids:
        g = Grid(*gr)
        const = dict(X0=g.x % g.C, Y0=g.y + 1000, YBIAS=1000, CW=g.w, CH=g.h, NX=g.nx, NY=g.ny, CIRC=g.C, MaxDepth=2,
                     MaxOps=9, MaxPre=pre + extra, MinI=i0, MaxI=i1, MinJ=j0, MaxJ=j1, MaxNX=mx, MaxNY=my)
        jobs.append((("MergeModel", cfg("MSpec", const, ["MGraphExact", "MNoOverlap", "MReplaced", "MEmit"])), dict(timeout=760)))
    out = []
    for (name, gr, *_), r in zip(grids, tlc_many(jobs)):
        res.model("MergeModel/" + name, r)
        hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
        if not hs:
            raise MachineryError("no merge histories for " + name)
        for h in hs:
            out.append((name, gr, h))
    return out


def loaded_random(n, seed, kinds, nops=6):
    """random meshes and random operations of the given kinds on them"""
    rng = random.Random(seed)
    out = []
    for i in range(n):
        name, gr = RAND_GRIDS[i % len(RAND_GRIDS)]
        if "merge" in kinds and name in ("global 2x1", "global 2x2"):
            name, gr = RAND_GRIDS[rng.choice([0, 3, 4, 10])]
        k = rng.choice([2, 4])
        gr = finer(gr, k)
        g = Grid(*gr)
        depth = rng.choice([1, 2, 2, 3])
        ops = []
        for _ in range(rng.randrange(2, nops + 1)):
            kind = rng.choice(kinds)
            if kind == "split":
                ops.append(["split"])
            elif kind in ("points", "query"):
                ops.append([kind, rng.randrange(1, 4) if kind == "points" else 12])
            elif kind == "merge":
                ops.append(["merge", random_merge(g, gr, rng)])
        if "query" in kinds:
            ops.append(["query", 14])
        sc = dict(grid=gr, maxd=3, depth=depth, pre=rng.randrange(0, 7), ops=ops, seed=rng.randrange(10 ** 9), kind=name)
        if rng.random() < .4:
            sc["idstep"] = rng.choice(["sorted", "shuffled"])
        if "merge" not in kinds and rng.random() < .4:
            ax, ay = (2, 1) if rng.random() < .5 else (1, 2)
            if g.nx % ax == 0 and g.ny % ay == 0 and not (g.wraps() and g.nx // ax < 2):
                sc["aspect"] = (ax, ay)
        out.append(sc)
    return out


def random_merge(g, gr, rng):
    x, y, w, h, nx, ny, u = gr
    while True:
        mx, my = rng.randrange(1, min(nx, 3) + 2), rng.randrange(1, min(ny, 3) + 2)
        i, j = rng.randrange(-2, nx + 2), rng.randrange(-2, ny + 2)
        bx, by, bw, bh = x + i * w, y + j * h, mx * w, my * h
        w2, h2 = w // rng.choice([1, 1, 2]), h // rng.choice([1, 1, 2])   # the second mesh may have a finer grid
        if rng.random() < .15:                          # misaligned: must be refused
            kind = rng.randrange(4)
            if kind == 0: bx += w // 2
            elif kind == 1: by += h // 2
            elif kind == 2: bw += w // 2; w2 = w // 2
            else: bh += h // 2; h2 = h // 2
        if bw > g.C or (bw == g.C and norm_x(bx, g.C) != -g.C // 2):
            continue
        if bw == g.C and bw // w2 < 2:
            continue
        if by * g.u < -90 or (by + bh) * g.u > 90:
            continue
        if bw + w > g.C and bw != g.C:                   # leaves a gap narrower than a column
            continue
        g2 = (norm_x(bx, g.C), by, w2, h2, bw // w2, bh // h2, u)
        spec = dict(grid=g2, seed=rng.randrange(10 ** 9), pre=rng.randrange(0, 4), maxd=2)
        if rng.random() < .2:
            spec["cli"] = rng.choice(["file", "folder"])
        return spec


def check_loaded(pid, tier, seed, want, relevant=None):
    res = Result(pid)
    thorough = tier == "thorough"
    scen = []
    if pid == "P10":
        hists = model_runs(res, ops=3)
        scen += [dict(grid=h["grid"], maxd=2, seed=i, cells=Grid(*h["grid"]).initial(), ops=[["split", c] for c in h["hist"]], kind=h["kind"])
                 for i, h in enumerate(hists)]
        res.extra["split_histories_enumerated_by_tlc"] = len(scen)
        scen += loaded_random(2500 if thorough else 300, seed, ["split", "points", "points"], nops=12 if thorough else 6)
    elif pid == "P11":
        ms = merge_models(res, extra=1 if thorough else 0, grids=None if not thorough else MERGE_GRIDS[1:])
        if thorough:
            ms += merge_models(res)
        for i, (name, gr, h) in enumerate(ms):
            g = Grid(*gr)
            rg = h["reg"]
            g2 = (rg[0], rg[1], rg[2], rg[3], rg[4], rg[5], gr[6])
            if Grid(*g2).wraps() and g2[4] < 2:
                continue
            scen.append(dict(grid=gr, maxd=2, seed=i, cells=apply_hist(g, h["h1"]), kind=name,
                             ops=[["merge", dict(grid=g2, seed=i, maxd=2, cells=apply_hist(Grid(*g2), h["h2"]))]]))
        res.extra["merges_enumerated_by_tlc"] = len(scen)
        scen += loaded_random(2500 if thorough else 300, seed, ["merge", "merge", "split"], nops=6 if thorough else 4)
    elif pid == "P12":
        hists = model_runs(res, ops=2)
        rng = random.Random(seed)
        for i, h in enumerate(hists):
            gr = finer(h["grid"], 2)
            cells = apply_hist(Grid(*gr), [[v * 2 for v in c] for c in h["hist"]])
            pts = [list(p) for p in all_points(Grid(*gr), cells, rng, 60)]
            scen.append(dict(grid=gr, maxd=2, seed=i, cells=cells, ops=[["query", 0, pts]], kind=h["kind"]))
        res.extra["meshes_enumerated_by_tlc"] = len(scen)
        scen += loaded_random(1500 if thorough else 220, seed, ["query", "query", "split", "merge", "points"], nops=8 if thorough else 5)
    traces = collect(run_loaded, scen)
    # the starting mesh is written by the harness: if TLC rejects it, the harness is wrong
    v = validate("MeshTrace", traces, want, cost=trace_cost)
    res.judged(traces, *v, scen, relevant)
    res.extra["random_histories"] = len(scen) - res.extra.get("split_histories_enumerated_by_tlc", 0) - res.extra.get("merges_enumerated_by_tlc", 0) - res.extra.get("meshes_enumerated_by_tlc", 0)
    res.extra["operations"] = {k: sum(1 for t in traces for s in t["steps"] if s["op"] == k) for k in ("split", "points", "merge", "query")}
    return res


def all_points(g, cells, rng, n):
    """lattice points of the mesh and a margin around it, sampled, both spellings of 180"""
    H = g.C // 2
    xs = sorted({norm_x(c[0] + d, g.C) for c in cells for d in (-1, 0, 1, c[2] // 2, c[2] - 1, c[2], c[2] + 1)})
    ys = sorted({c[1] + d for c in cells for d in (-1, 0, 1, c[3] // 2, c[3] - 1, c[3], c[3] + 1)})
    pts = [(x, y) for x in xs for y in ys if abs(y) * g.u <= 90]
    rng.shuffle(pts)
    pts = pts[:n]
    seam = [(x, y) for x in (-H, H) for y in ys if abs(y) * g.u <= 90]
    rng.shuffle(seam)
    return pts + seam[:8]
