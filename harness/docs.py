"""Validators of vessel files, route files and waypoint tables: P23 (trace specification DocsTrace)."""
import os, json, random, re, copy, tempfile, shutil, csv
from common import *
from mesh import err

NUMS = ["12", "-75.5", "0", "1e1", "+3", ".5", "-0.25", "180"]


def value(v, rng):
    k = v["k"]
    if k == "text":
        return v["v"]
    if k == "num":
        n = v["v"]
        if n % 2:
            return n / 2
        return n // 2 if rng.random() < .7 else n / 2
    if k == "list":
        return [value(x, rng) for x in v["v"]]
    return dict(bool=rng.random() < .5, null=None, obj={"a": 1} if rng.random() < .5 else {})[k]


def run_docs(sc):
    import pandas as pd
    from meshiphi.config_validation import config_validator as cv
    rng = random.Random(sc["seed"])
    trace = dict(steps=[])
    d = tempfile.mkdtemp(prefix="docs_", dir=scratch())

    def took(fn, x):
        try:
            fn(x)
            return True
        except Exception:
            return False
    try:
        for n, it in enumerate(sc["docs"]):
            kind, doc = it["kind"], it["doc"]
            s = dict(op="submit", kind=kind, doc=doc, took=[], forms=[], kept=True)
            if kind == "waypoints":
                fn = cv.validate_waypoints
                cols = doc["cols"]
                rows = [{c: (rng.choice(NUMS) if r[c]["k"] == "num" else r[c].get("v", "")) for c in cols} for r in doc["rows"]]
                if doc["top"] != "table":
                    s["took"].append(took(fn, [rows] if doc["top"] == "list" else 7))
                    s["forms"].append("memory")
                else:
                    p = os.path.join(d, f"way {n}.csv")
                    with open(p, "w", newline="") as f:
                        w = csv.DictWriter(f, cols)
                        w.writeheader()
                        w.writerows(rows)
                    if cols:
                        s["took"].append(took(fn, p))
                        s["forms"].append("file")
                    num = rng.random() < .5
                    df = pd.DataFrame([{c: (float(r[c]) if num and q[c]["k"] == "num" else None if q[c]["k"] == "blank" and num else r[c]) for c in cols}
                                       for r, q in zip(rows, doc["rows"])], columns=cols)
                    for idx in (None, "Name"):
                        if idx is None or idx in cols:
                            f = df.set_index(idx) if idx else df
                            was = f.copy(deep=True)
                            s["took"].append(took(fn, f))
                            s["forms"].append("indexed" if idx else "memory")
                            s["kept"] = s["kept"] and f.equals(was) and list(f.columns) == list(was.columns)
            else:
                fn = cv.validate_vessel_config if kind == "vessel" else cv.validate_route_config
                x = {f: value(v, rng) for f, v in doc["fields"].items()}
                items = list(x.items())
                rng.shuffle(items)
                x = dict(items)
                if doc["top"] != "obj":
                    x = [x] if doc["top"] == "list" else 7
                was = copy.deepcopy(x)
                s["took"].append(took(fn, x))
                s["forms"].append("memory")
                s["kept"] = x == was and (not isinstance(x, dict) or list(x) == list(was))
                p = os.path.join(d, f"doc {n}.json")
                json.dump(was, open(p, "w"))
                s["took"].append(took(fn, p))
                s["forms"].append("file")
            trace["steps"].append(s)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return trace


def random_docs(n, rng, pool):
    """tables with more rows, and files combining the parts of enumerated ones"""
    out = []
    T = lambda v: dict(k="text", v=v)
    by = {k: [p["doc"] for p in pool if p["kind"] == k and p["doc"]["top"] == "obj"] for k in ("vessel", "route")}
    for _ in range(n):
        kind = rng.choice(["vessel", "route", "waypoints"])
        if kind == "waypoints":
            m = rng.randrange(0, 9)
            bad = rng.random() < .4
            mark = lambda: rng.choice([T("X"), T("x"), dict(k="blank"), dict(k="blank"), T("Y")])
            coord = lambda: T(rng.choice(["north", "--", "1 2"])) if bad and rng.random() < .1 else dict(k="num")
            cols = ["Name", "Lat", "Long", "Source", "Destination"]
            extra = [c for c in ("Note", "index", "Group") if rng.random() < .2]
            rows = [dict(Name=T(f"n{i}"), Lat=coord(), Long=coord(), Source=mark(), Destination=mark(), **{c: T("t%d" % i) for c in extra}) for i in range(m)]
            cols = cols + extra
            rng.shuffle(cols)
            out.append(dict(kind=kind, doc=dict(top="table", cols=cols, rows=rows)))
        else:
            a, b = rng.choice(by[kind])["fields"], rng.choice(by[kind])["fields"]
            f = {k: (b if k in b and (k not in a or rng.random() < .5) else a)[k] for k in sorted(set(a) | set(b))}
            out.append(dict(kind=kind, doc=dict(top="obj", fields=f)))
    return out


def check_docs(pid, tier, seed):
    res = Result(pid)
    thorough = tier == "thorough"
    edits = 2
    r = tlc("DocsModel", cfg("DocsSpec", dict(MaxEdits=edits), ["StartAccepted", "ExtrasIgnored", "NeedsNeeded", "OptionalFree", "MoreRows", "OrderFree", "Emit"], view="DocsView"),
            workers=1, timeout=700)
    res.model(f"DocsModel/{edits}", r)
    pool, seen = [], set()
    for h in re.findall(r'<<\s*"DOC",\s*"(.*?)"\s*>>', r["out"], re.S):
        t = json.loads('"' + h + '"')
        if t not in seen:
            seen.add(t)
            x = json.loads(t)
            if x["kind"] != "waypoints" and not isinstance(x["doc"]["fields"], dict):
                x["doc"]["fields"] = {}
            pool.append(x)
    if len(pool) < 1000:
        raise MachineryError("too few documents from DocsModel")
    rng = random.Random(seed)
    docs = list(pool)
    res.extra["documents_enumerated_by_tlc"] = len(docs)
    if not thorough and len(docs) > 12000:
        docs = docs[:600] + rng.sample(docs[600:], 11400)      # breadth first: all single edits
    docs += random_docs(40000 if thorough else 3000, rng, pool)
    scen = [dict(kind="documents", docs=docs[i:i + 40], seed=rng.randrange(10 ** 9)) for i in range(0, len(docs), 40)]
    import pandas                                              # noqa: before forking
    import meshiphi.config_validation.config_validator         # noqa
    traces = []
    for sc, (s, tr) in zip(scen, run_pool(run_docs, scen, 120)):
        if s != "ok":
            raise MachineryError("validating small documents timed out")
        traces.append(tr)
    res.judged(traces, *validate("DocsTrace", traces), scen)
    st = [s for t in traces for s in t["steps"]]
    res.extra["submitted"] = {k: sum(1 for s in st if s["kind"] == k) for k in ("vessel", "route", "waypoints")}
    res.extra["accepted"] = {k: sum(1 for s in st if s["kind"] == k and all(s["took"])) for k in ("vessel", "route", "waypoints")}
    return res
