"""Comparison of mesh files: P24 (trace specification CompareTrace)."""
import json, random, re, copy, math
from common import *
from mesh import Grid, RAND_GRIDS, mesh_json, random_cells, quarters, err, wkt_of

RANGES = [("bounds", "compare_cellbox_boundaries"), ("values", "compare_cellbox_values"),
          ("attrs", "compare_cellbox_attributes"), ("graph", "compare_neighbour_graph_values")]
EMPTY = {}


def num(s, m, e):
    return dict(k="num", s=s, m=m, e=e)


def real(v):
    """the value as it stands in a mesh file"""
    k = v["k"]
    if k == "num":
        return 0.0 if v["s"] == 0 else float("%s%de%d" % ("-" if v["s"] < 0 else "", v["m"], v["e"]))
    if k == "nan":
        return float("nan")
    if k == "inf":
        return v["s"] * float("inf")
    if k == "list":
        return [real(x) for x in v["v"]]
    return v["v"]


def mesh_file(m, names, rng):
    """the mesh file of an abstract mesh; attributes in a fixed order, cells and neighbours in any"""
    geoms = sorted(m["cells"])
    rng.shuffle(geoms)
    order = sorted({n for c in m["cells"].values() for n in c} - {"id"})
    cbs = []
    for g in geoms:
        c = m["cells"][g]
        d = dict(geometry=names.get(g, g))
        for n in order:
            if n in c:
                d[n] = real(c[n])
        d["id"] = c["id"]["v"]
        cbs.append(d)
    graph = {}
    for i in m["graph"]:
        graph[i] = {}
        for d, q in m["graph"][i].items():
            q = [int(x) for x in q]
            rng.shuffle(q)
            graph[i][d] = q
    return json.loads(json.dumps(dict(config={}, cellboxes=cbs, neighbour_graph=graph)))


def same(a, b):
    return json.dumps(a) == json.dumps(b)


def run_compare(sc):
    from meshiphi.mesh_validation.mesh_comparator import MeshComparator
    rng = random.Random(sc["seed"])
    trace = dict(steps=[])
    for p in sc["pairs"]:
        names = p.get("names", EMPTY)
        back = {v: k for k, v in names.items()}
        x, y = mesh_file(p["a"], names, rng), mesh_file(p["b"], names, rng)
        x0, y0 = copy.deepcopy(x), copy.deepcopy(y)
        s = dict(op="compare", a=p["a"], b=p["b"])
        for key, fn in RANGES:
            r = dict(ok=True, cells=[], ids=[])
            try:
                mc = MeshComparator()
                df = getattr(mc, fn)(x, y, *rng.choice([(), (None,), ("df",), ("dataframe",)]))
                r["cells"] = [back.get(g, g) for g in df.index]
                ids = getattr(mc, fn)(x, y, return_type="id")
                if [back.get(g, g) for g in ids.index] != r["cells"]:
                    raise ValueError("rows of the two reports differ")
                r["ids"] = [i if isinstance(i, str) else "?" for i in ids.tolist()]
            except Exception as e:
                r.update(ok=False, err=err(e))
                s["err"] = err(e)
            s[key] = r
        s["kept"] = same(x, x0) and same(y, y0)
        trace["steps"].append(s)
    return trace


# --------------------------------------------------------------------------
def rnum(rng):
    r = rng.random()
    if r < .1:
        return num(0, 0, 0)
    m = rng.choice([rng.randrange(1000000, 10000000), rng.randrange(1000, 10000) * 1000, rng.randrange(9990000, 10000000), 1000000])
    if m % 1000 in (499, 500, 501):
        m += 7 if m % 1000 != 501 else 3
    return num(rng.choice([1, 1, -1]), m, rng.randrange(-13, 4))


def nudge(v, rng):
    """a value close to v: the same or another one to four digits"""
    if v["s"] == 0:
        return num(1, 1000000, -15)
    m = v["m"] + rng.choice([-1, 1]) * rng.choice([1, 3, 40, 300, 600, 1000, 1500])
    m = min(9999999, max(1000000, m))
    if m % 1000 in (499, 500, 501):
        m += 7 if m % 1000 != 501 else 3
    return num(v["s"], min(m, 9999999), v["e"])


KINDS = dict(v="num", depth="num", t="text", f="flag", u="list")


def rval(kind, rng):
    if kind == "num":
        r = rng.random()
        return dict(k="nan") if r < .08 else dict(k="inf", s=rng.choice([1, -1])) if r < .12 else rnum(rng)
    if kind == "text":
        return dict(k="text", v=rng.choice(["first year", "old", "0", ""]))
    if kind == "flag":
        return dict(k="flag", v=rng.random() < .5)
    return dict(k="list", v=[rnum(rng) for _ in range(rng.choice([1, 2, 2, 2, 3]))])


def random_pair(rng):
    kind, gr = RAND_GRIDS[rng.randrange(len(RAND_GRIDS))]
    g = Grid(*gr)
    cells = random_cells(g, rng, rng.randrange(0, 5), 3)
    names, key = {}, {}

    def geom(c):
        if c not in key:
            key[c] = "g%d" % len(key)
            names[key[c]] = wkt_of(c, g)
        return key[c]

    def abstract(cells, ids, attrs):
        j = mesh_json(g, cells, [0] * len(cells), ids=ids)
        return dict(cells={geom(c): dict(a, id=dict(k="text", v=i)) for c, i, a in zip(cells, ids, attrs)},
                    graph={i: {d: [str(x) for x in q] for d, q in m.items()} for i, m in j["neighbour_graph"].items()})
    use = [n for n in KINDS if rng.random() < .7]
    ids = [str(i) for i in range(len(cells))]
    attrs = [{n: rval(KINDS[n], rng) for n in use if rng.random() < .93} for _ in cells]
    a = abstract(cells, ids, attrs)
    attrs = copy.deepcopy(attrs)
    cells, ids = list(cells), list(ids)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.randrange(len(cells))
        r = rng.random()
        if r < .35:
            c = cells[k]
            if c[2] % 2 or c[3] % 2:
                continue
            top = max(int(i) for i in ids)
            at = attrs[k]
            old = ids[k]
            del cells[k], ids[k], attrs[k]
            reuse = rng.random() < .3
            for n, q in enumerate(quarters(c, g.C)):
                cells.append(q)
                ids.append(old if reuse and n == 0 else str(top + 1 + n))
                attrs.append(copy.deepcopy(at))
        elif r < .75 and attrs[k]:
            n = rng.choice(sorted(attrs[k]))
            v = attrs[k][n]
            if v["k"] == "num" and rng.random() < .8:
                attrs[k][n] = nudge(v, rng)
            elif v["k"] == "list" and rng.random() < .8:
                i = rng.randrange(len(v["v"]))
                r = rng.random()
                if r < .25:                              # the same numbers in another order
                    v["v"].reverse()
                elif r < .35:
                    v["v"].append(rnum(rng))
                else:
                    v["v"][i] = nudge(v["v"][i], rng)
            else:
                attrs[k][n] = rval(KINDS[n], rng)
        elif r < .85 and attrs[k]:
            attrs[k].pop(rng.choice(sorted(attrs[k])))
        elif r < .9:
            n = rng.choice(sorted(KINDS))
            attrs[k].setdefault(n, rval(KINDS[n], rng))
            if rng.random() < .5 and len(attrs[k]) > 1:     # as many attributes, others
                attrs[k].pop(rng.choice(sorted(set(attrs[k]) - {n})))
        elif len(cells) > 2:
            del cells[k], ids[k], attrs[k]
    b = abstract(cells, ids, attrs)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):    # rewire
        i = rng.choice(sorted(b["graph"]))
        n = b["graph"][i]
        d, e = rng.sample(sorted(n), 2)
        r = rng.random()
        if r < .3:                                  # the same neighbours in other directions
            n[d], n[e] = n[e], n[d]
        elif r < .5 and n[d]:                       # as many neighbours, others
            n[d][rng.randrange(len(n[d]))] = rng.choice(ids)
        elif r < .6 and n[d]:                       # a direction that one file does not list
            del n[d]
        elif r < .75 and n[d]:
            n[d].pop()
        else:
            n[d].append(rng.choice(ids))
    if rng.random() < .5:
        a, b = b, a
    return dict(a=a, b=b, names=names)


def check_compare(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    edits = 3 if thorough else 2
    r = tlc("CompareModel", cfg("CSpec", dict(MaxEdits=edits), ["Reflexive", "Mutual", "OnlyEdited", "EditsShow", "FourDigits", "FarApart", "Emit"], view="CView"),
            workers=1, timeout=780, heap="6g")
    res.model(f"CompareModel/{edits}", r)
    pool, seen = [], set()
    for h in re.findall(r'<<\s*"PAIR",\s*"(.*?)"\s*>>', r["out"], re.S):
        t = json.loads('"' + h + '"')
        if t not in seen:
            seen.add(t)
            x = json.loads(t)
            pool += [x, dict(a=x["b"], b=x["a"])]
    if len(pool) < 1000:
        raise MachineryError("too few pairs from CompareModel")
    res.extra["pairs_enumerated_by_tlc"] = len(pool)
    rng = random.Random(seed)
    keep = 12000 if thorough else 1500
    if len(pool) > keep:
        pool = pool[:200] + rng.sample(pool[200:], keep - 200)
    pairs = pool + [random_pair(rng) for _ in range(8000 if thorough else 900)]
    scen = [dict(kind="pairs", pairs=pairs[i:i + 10], seed=rng.randrange(10 ** 9)) for i in range(0, len(pairs), 10)]
    import meshiphi.mesh_validation.mesh_comparator       # noqa: before forking
    traces = []
    for sc, (s, tr) in zip(scen, run_pool(run_compare, scen, 120)):
        if s != "ok":
            tr = dict(steps=[dict(op="compare", a=sc["pairs"][0]["a"], b=sc["pairs"][0]["b"], kept=True, err="timeout",
                                  **{k: dict(ok=False, cells=[], ids=[]) for k, _ in RANGES})])
        traces.append(tr)
    res.judged(traces, *validate("CompareTrace", traces, cost=lambda t: sum(len(s["a"]["cells"]) + len(s["b"]["cells"]) for s in t["steps"])), scen)
    st = [s for t in traces for s in t["steps"]]
    res.extra["reported"] = {k: sum(1 for s in st if s[k]["cells"]) for k, _ in RANGES}
    res.extra["pairs_compared"] = len(st)
    return res
