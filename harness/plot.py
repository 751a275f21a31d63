"""PNG plots of meshes: P26 (trace specification PlotTrace)."""
import os, json, random, re, tempfile, shutil, math
from common import *
from mesh import Grid, RAND_GRIDS, mesh_json, obs_json, random_cells, err, finer
from raster import files

NV = -999999
SUB = 16                                     # sample positions in 1/16 of a lattice unit
LEAST = 8                                    # cells of fewer pixels across are not looked at
CMAPS = ["viridis", "plasma", "cividis", "Blues", "coolwarm", "turbo", "Greys", "magma_r"]
FLAGS = ["red", "lime", "#123456", "gold", "black"]


def aspect(gr):
    g = Grid(*gr)
    return g.nx * g.w / (g.ny * g.h)


PLOT_GRIDS = [x for x in RAND_GRIDS if x[0] != "tiny cells" and .25 <= aspect(x[1]) <= 4 and Grid(*x[1]).nx * Grid(*x[1]).w * Grid(*x[1]).u < 360]


def shown(c, name, kind, scale):
    v = c.get(name)
    if kind == "flag":
        return NV if v is None or v != v else int(v)
    if v is None or not math.isfinite(v):
        return NV
    v = v / scale
    if v != int(v):
        raise ValueError("values have changed")
    return int(v)


def mem_of(j, g, layers, scale):
    j = json.loads(json.dumps(j))
    o = obs_json(j, g)
    if not o["lattice"]:
        raise ValueError("cells off the lattice")
    return [dict(x=r[0], y=r[1], w=r[2], h=r[3], v=[shown(c, f"l{i}", k, scale) for i, (k, _) in enumerate(layers)])
            for r, c in zip(o["cells"], j["cellboxes"])]


def put_values(j, rng, layers, gaps, given=None, scale=1):
    vals = {}
    for i, (k, _) in enumerate(layers):
        n = rng.choice([1, 2, 4, 9]) if gaps != "none" else rng.choice([2, 4, 9])
        vals[i] = [rng.randrange(-60, 250) for _ in range(n)] if k == "cmap" else [True, False, False]
        if rng.random() < .2 and k == "cmap":
            vals[i] = [v / 64. * 64 * 4000 for v in vals[i]]
    for n, c in enumerate(j["cellboxes"]):
        c.pop("v", None)
        for i, (k, _) in enumerate(layers):
            if given:
                v = given[i][n]
                if v != NV:
                    c[f"l{i}"] = bool(v) if k == "flag" else v * scale
                elif rng.random() < .5:
                    c[f"l{i}"] = float("nan")
                continue
            r = rng.random()
            if gaps != "none" and r < .1:
                continue
            v = rng.choice(vals[i])
            if gaps != "none" and r < .2:
                v = float("nan") if k == "flag" else rng.choice([float("nan"), float("inf"), -float("inf")])
            c[f"l{i}"] = v if k == "flag" else v * scale
    for i in range(len(layers)):                      # a name that no cell has is unknown: out of domain
        if all(f"l{i}" not in c for c in j["cellboxes"]):
            rng.choice(j["cellboxes"])[f"l{i}"] = float("nan")


def start_mesh(g, sc, rng):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    cells = [tuple(c) for c in sc["cells"]] if "cells" in sc else random_cells(g, rng, sc["pre"], 3)
    if sc.get("holes") and len(cells) > 2:
        cells.pop(rng.randrange(1, len(cells)))
    j = mesh_json(g, cells, [0] * len(cells), depth=4)
    put_values(j, rng, sc["layers"], sc["gaps"], sc.get("values"), sc.get("scale", 1))
    return EnvironmentMesh.load_from_json(json.loads(json.dumps(j)))


def run_plot(sc):
    import matplotlib.pyplot as plt
    g = Grid(*sc["grid"])
    rng = random.Random(sc["seed"])
    layers, scale = sc["layers"], sc.get("scale", 1)
    reg = dict(x=norm_x(g.x, g.C), y=g.y, w=g.nx * g.w, h=g.ny * g.h)
    trace = dict(C=g.C, reg=reg, steps=[])
    st = trace["steps"]
    d = tempfile.mkdtemp(prefix="png_", dir=scratch())
    cwd, oldtmp = os.getcwd(), tempfile.tempdir
    for k in ("cwd", "tmp", "out put"):
        os.makedirs(os.path.join(d, k))
    try:
        try:
            m = start_mesh(g, sc, rng)
            st.append(dict(op="start", ok=True, mem=mem_of(m.to_json(), g, layers, scale)))
        except Exception as e:
            st.append(dict(op="start", ok=False, err=err(e), mem=[]))
            return trace
        os.chdir(os.path.join(d, "cwd"))
        tempfile.tempdir = os.path.join(d, "tmp")
        for k, op in enumerate(sc["ops"]):
            s = dict(op=op["op"])
            try:
                if op["op"] == "split":
                    cand = [str(c.get_id()) for c, r in zip(m.agg_cellboxes, st[-1]["mem"]) if r["w"] % 2 == 0 and r["h"] % 2 == 0]
                    if not cand:
                        continue
                    m.split_and_replace(rng.choice(cand))
                    s.update(ok=True, mem=mem_of(m.to_json(), g, layers, scale))
                else:
                    s.update(export(m, op, g, reg, d, k, layers, scale))
            except Exception as e:
                s.update(ok=False, err=err(e), mem=[])
            st.append(s)
            if not s["ok"]:
                break
    finally:
        plt.close("all")
        os.chdir(cwd)
        tempfile.tempdir = oldtmp
        shutil.rmtree(d, ignore_errors=True)
    return trace


def export(m, op, g, reg, d, k, layers, scale):
    order = [l for l in range(len(layers)) if layers[l][0] == "cmap"] + [l for l in range(len(layers)) if layers[l][0] == "flag"]
    pf = os.path.join(d, f"p{k}.json")
    json.dump(dict(cmaps=[dict(data_name=f"l{i}", cmap=c) for i, (t, c) in enumerate(layers) if t == "cmap"],
                   bools=[dict(data_name=f"l{i}", colour=c) for i, (t, c) in enumerate(layers) if t == "flag"]), open(pf, "w"))
    out = os.path.join(d, "out put", f"o{k}.png")
    via = op["via"]
    if via == "cli":
        import io_
        mf = os.path.join(d, f"m{k}.json")
        json.dump(m.to_json(), open(mf, "w"))
    before = files(d)
    if via == "cli":
        io_.cli("export_mesh_cli", [mf, op["fmt"], "-o", out, "-f", pf])
    elif via == "save":
        m.save(out, op["fmt"], pf)
    else:
        # the plotter used directly; with another plot begun meanwhile
        from meshiphi.mesh_plotting.mesh_plotter import MeshPlotter
        p = MeshPlotter(m.to_json())
        if via == "two":
            MeshPlotter(m.to_json())
        for i in order:
            (p.plot_cmap if layers[i][0] == "cmap" else p.plot_bool)(f"l{i}", layers[i][1])
        p.save(out)
    tidy = files(d) - before == {out}
    mem = mem_of(m.to_json(), g, layers, scale)
    proportion, samples = look(out, reg, mem, layers, g.C)
    return dict(ok=True, mem=mem, tidy=tidy, proportion=proportion, layers=[t for t, _ in layers], samples=samples)


def look(path, reg, mem, layers, C):
    import numpy as np
    import matplotlib, matplotlib.image, matplotlib.colors
    a = matplotlib.image.imread(path)
    a = np.round(a[..., :3] * 255).astype(int)
    ys, xs = np.nonzero((a < 250).any(axis=2))
    if not len(ys):
        return False, []
    # the frame of the axes surrounds the region
    x0, x1, y0, y1 = xs.min() + .5, xs.max() + .5, ys.min() + .5, ys.max() + .5
    pw, ph = (x1 - x0) / reg["w"], (y1 - y0) / reg["h"]
    proportion = abs((x1 - x0) - ph * reg["w"]) <= 4 + .02 * (x1 - x0)
    pal = []
    for t, c in layers:
        if t == "cmap":
            pal.append(np.round(matplotlib.colormaps[c](np.arange(256))[:, :3] * 255).astype(int))
        else:
            pal.append(np.round(np.array(matplotlib.colors.to_rgb(c)) * 255).astype(int))

    def sample(px, py):
        ix, iy = x0 + px / SUB * pw, y1 - py / SUB * ph
        c = a[min(max(int(iy), 0), a.shape[0] - 1), min(max(int(ix), 0), a.shape[1] - 1)]
        cand = [[0, 0]] if (c >= 254).all() else []
        for i, (t, _) in enumerate(layers):
            if t == "cmap":
                cand += [[i + 1, int(k)] for k in np.nonzero((abs(pal[i] - c) <= 2).all(axis=1))[0]]
            elif (abs(pal[i] - c) <= 2).all():
                cand.append([i + 1, 1])
        return [px, py, cand]
    # a cell over the antimeridian may be drawn as two parts with a line between: not looked at
    seam = (C // 2 - reg["x"]) % C
    out = []
    taken = set()
    for c in mem:
        ox, oy = (c["x"] - reg["x"]) % C, c["y"] - reg["y"]
        taken |= {(ox + i, oy + j) for i in range(c["w"]) for j in range(c["h"])}
        if min(c["w"] * pw, c["h"] * ph) < LEAST:
            continue
        fr = [(.5, .5)]
        if min(c["w"] * pw, c["h"] * ph) >= 4 * LEAST:
            fr += [(.25, .25), (.75, .25), (.25, .75), (.75, .75)]
        out += [sample(int(SUB * (ox + fx * c["w"])), int(SUB * (oy + fy * c["h"]))) for fx, fy in fr if abs(ox + fx * c["w"] - seam) * pw > 4]
    if min(pw, ph) >= LEAST:
        out += [sample(SUB * i + SUB // 2, SUB * j + SUB // 2) for i in range(reg["w"]) for j in range(reg["h"]) if (i, j) not in taken][:20]
    return bool(proportion), out


# --------------------------------------------------------------------------
def model(res):
    r = tlc("PlotModel", cfg("PSpec", {}, ["Painted", "FlagsWin", "Ends", "Monotone", "Emit"]), timeout=700)
    res.model("PlotModel", r)
    hs = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r["out"], re.S)]
    out = []
    for n, h in enumerate(hs):
        gr = [(4, 0, 4, 4, 3, 1, "1"), (174, -8, 4, 4, 3, 1, "1"), (-60, 20, 4, 4, 3, 1, "1")][n % 3]
        g = Grid(*gr)
        cells = [(norm_x(g.x + 4 * i, g.C), g.y, 4, 4) for i in range(3)]
        # which layer comes first in the parameter file cannot show: flags come last
        layers = [(t, (CMAPS if t == "cmap" else FLAGS)[(n + i) % 5]) for i, t in enumerate(h["layers"])]
        out.append(dict(grid=gr, kind="enumerated", cells=cells, layers=layers, values=[h["v1"], h["v2"]][:len(layers)], gaps="none", seed=n, scale=[1, 2.0 ** -9, 64][n // 3 % 3],
                        ops=[dict(op="plot", via="save", fmt="PNG")]))
    if len(out) < 100:
        raise MachineryError("too few plots from PlotModel")
    return out


def gen_plot(n, seed):
    rng = random.Random(seed)
    out = []
    for i in range(n):
        kind, gr = PLOT_GRIDS[i % len(PLOT_GRIDS)]
        layers = [("cmap", c) for c in rng.sample(CMAPS, rng.choice([0, 1, 1, 1, 2]))]
        layers += [("flag", c) for c in rng.sample(FLAGS, rng.choice([0, 1, 2]) if layers else 1)]
        rng.shuffle(layers)
        ops = []
        for _ in range(rng.choice([1, 2])):
            if rng.random() < .3:
                ops.append(dict(op="split"))
            ops.append(dict(op="plot", via=rng.choice(["save", "save", "cli", "direct", "two"]), fmt=rng.choice(["PNG", "png", "Png"])))
        out.append(dict(grid=finer(gr, 2), kind=kind, pre=rng.randrange(0, 7), layers=layers, seed=rng.randrange(10 ** 9), scale=rng.choice([1, 1, 2.0 ** -12, 2.0 ** -26, 2.0 ** 20]), gaps=rng.choice(["none", "some", "some"]),
                        holes=rng.random() < .2, ops=ops))
    return out


def check_plot(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    import matplotlib
    matplotlib.use("Agg")
    import cartopy.crs, matplotlib.pyplot                # noqa: before forking
    scen = model(res)
    rng = random.Random(seed)
    res.extra["plots_enumerated_by_tlc"] = len(scen)
    keep = 4000 if thorough else 400
    if len(scen) > keep:
        scen = rng.sample(scen, keep)
    scen += gen_plot(2500 if thorough else 350, seed)
    traces = []
    for sc, (s, tr) in zip(scen, run_pool(run_plot, scen, 90)):
        traces.append(tr if s == "ok" else dict(C=360, reg=dict(x=0, y=0, w=1, h=1), steps=[dict(op="start", ok=False, err="timeout", mem=[])]))
    v = validate("PlotTrace", traces, cost=lambda t: sum(len(s["mem"]) * (1 + len(s.get("samples", []))) for s in t["steps"]))
    res.judged(traces, *v, scen)
    ex = [s for t in traces for s in t["steps"] if s["op"] == "plot" and s["ok"]]
    res.extra["plots"] = len(ex)
    res.extra["points_judged"] = sum(len(s["samples"]) for s in ex)
    return res
