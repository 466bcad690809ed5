"""Driver for maps (spec/Interp.tla)."""
import json
import os
import warnings

TYPES = ("regbin", "log_regbin")


def setup():
    global app, jnp, np, apt
    import app
    from app import jnp, np, apt


_n = [0]


def build(doc, method, text=None):
    """The map read from a file, and the error."""
    app.reset()
    _n[0] += 1
    p = os.path.join(app.SCRATCH, f"map{_n[0]}.json")
    with open(p, "w") as f:
        f.write(text if text is not None else json.dumps(doc))
    m = apt.Map(name="vf_map", default=p, method=method, help="h")
    m.taken_by = "vf"
    try:
        _, err = app.attempt(m.build, llh_name="l1")
    finally:
        os.unlink(p)
    return m, err


def centi(v):
    v = float(v)
    return round(v * 100) if np.isfinite(v) and abs(v) < 1e5 else None


def applied(f, pos, qs):
    """Events for the positions; every value is computed in two different batches."""
    got, err = app.attempt(lambda: np.asarray(f(jnp.asarray(pos))))
    rev, err2 = app.attempt(lambda: np.asarray(f(jnp.asarray(pos[::-1].copy())))[::-1])
    err = err or err2
    if not err and (got.shape != (len(qs),) or rev.shape != got.shape):
        err = f"shape {got.shape}"
    ev = []
    for i, q in enumerate(qs):
        e = {"op": "apply", "q": q, "err": err}
        if not err:
            a, b = centi(got[i]), centi(rev[i])
            e.update(ok=a is not None and b is not None, got=a or 0, alone=b or 0)
        ev.append(e)
    return ev


def coordinate(lo, step, log, q):
    x = lo + step * q / 4
    if not log:
        return float(x)
    return 10.0 ** (x / 2) if q > -100 else float(q % 3 - 2)


def run(sc):
    return {"reg": reg, "point": point, "knn": knn, "load": load, "pdf": pdf}[sc["kind"]](sc)


def reg(sc):
    nd = len(sc["dims"])
    flag = [sc["log"], [False] * nd, [True] * nd, sc["log"]][sc["style"] - 1]
    method = "LERP" if nd == 1 and sc["method"] == "NN" else sc["method"]
    if all(flag) and sc["style"] != 1:
        ct = "log_regbin"
    elif not any(flag) and sc["style"] != 1:
        ct = "regbin"
    else:
        ct = [TYPES[b] for b in flag]
    lows = [coordinate(a, 1, b, 0) for a, b in zip(sc["lo"], flag)]
    ups = [coordinate(a, s, b, 4 * (n - 1)) for a, s, b, n in zip(sc["lo"], sc["step"], flag, sc["dims"])]
    doc = {"coordinate_type": ct, "coordinate_name": ["x", "y", "z"][:nd], "coordinate_lowers": lows,
           "coordinate_uppers": ups, "map": np.array(sc["v"], dtype=float).reshape(sc["dims"]).tolist()}
    m, err = build(doc, method)
    ev = [{"op": "build", "err": err}]
    if not err:
        pos = np.array([[coordinate(a, s, b, q) for a, s, b, q in zip(sc["lo"], sc["step"], flag, qq)]
                        for qq in sc["qs"]])
        ev += applied(m.apply, pos[:, 0] if nd == 1 else pos, sc["qs"])
    size = [s if b else 2 * s for s, b in zip(sc["step"], flag)]
    return {"map": {"kind": "reg", "dims": sc["dims"], "v": sc["v"], "size": size, "method": method},
            "events": ev}


def point(sc):
    c = [coordinate(sc["lo"], 1, sc["log"], 4 * x) for x in sc["xs"]]
    doc = {"coordinate_type": "log_point" if sc["log"] else "point", "coordinate_name": "x",
           "coordinate_system": c, "map": [float(v) for v in sc["v"]]}
    m, err = build(doc, sc["method"])
    ev = [{"op": "build", "err": err}]
    if not err:
        pos = np.array([coordinate(sc["lo"], 1, sc["log"], q) for q in sc["qs"]])
        ev += applied(m.apply, pos, sc["qs"])
    return {"map": {"kind": "point", "xs": sc["xs"], "v": sc["v"], "method": sc["method"]}, "events": ev}


def knn(sc):
    refs, v = jnp.array(sc["refs"], dtype=float), jnp.array(sc["v"], dtype=float)
    f = lambda pos: apt.interpolation.map_interpolator_knn(pos, refs, v, sc["k"])
    ev = applied(f, np.array(sc["qs"], dtype=float), sc["qs"])
    return {"map": {"kind": "knn", "refs": sc["refs"], "v": sc["v"], "k": sc["k"]}, "events": ev}


def load(sc):
    ev = []
    for d in sc["ds"]:
        ct = d["ct"] if d["each"] else d["ct"][0]
        k = len(d["lows"])
        if not d["each"] and "point" in ct:
            doc = {"coordinate_type": ct, "coordinate_name": d["names"][0],
                   "coordinate_system": d["lows"], "map": [1.0] * k}
            if d["names"][0] == "pdf":
                doc["coordinate_system"], doc["map"] = [*d["lows"], 5.0], [1.0] * (k + 1)
        else:
            doc = {"coordinate_type": ct, "coordinate_name": d["names"], "coordinate_lowers": d["lows"],
                   "coordinate_uppers": d["ups"], "map": np.ones([2] * k).tolist()}
        text = json.dumps(doc)
        _, err = build(doc, d["method"], text[:-3] if d["broken"] else text)
        ev.append({"op": "load", "d": d, "err": err})
    return {"map": {"kind": "load"}, "events": ev}


def pdf(sc):
    doc = {"coordinate_type": "point", "coordinate_name": "pdf", "coordinate_system": sc["xs"],
           "map": [p / sc["den"] for p in sc["ps"]]}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        app.reset()
        p = os.path.join(app.SCRATCH, "pdf.json")
        json.dump(doc, open(p, "w"))
        m = apt.Map(name="vf_map", default=p, method=sc["method"], help="h")
        m.taken_by = "vf"
        try:
            m.build(llh_name="l1")
            err = ""
        except Exception as x:
            err = type(x).__name__
        os.unlink(p)
    e = {"op": "quantile", "err": err, "warned": any("cdf" in str(x.message) for x in w)}
    if not err:
        u = np.arange(21) / 20
        got, e["err"] = app.attempt(lambda: [round(float(x) * 100) for x in m.apply(jnp.asarray(u))])
        e.update(got=got or [], name=m.coordinate_name)
    return {"map": {"kind": "pdf", "xs": sc["xs"], "ps": sc["ps"]}, "events": [e]}
