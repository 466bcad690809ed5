"""Driver for option scenarios (spec/Options.tla): constants, maps, maps with uncertainty."""
import json
import os
import re
import warnings

KINDS = {"ca": "const", "ma": "map", "sa": "sigma", "sb": "sigma", "zz": "none"}


def setup():
    global app, jnp, np, apt
    import app
    from app import jnp, np, apt


def map_file(v):
    """x -> v * (10 + x) on [0, 10]"""
    f = os.path.join(app.SCRATCH, f"lin_{v}.json")
    if not os.path.exists(f):
        json.dump({"coordinate_type": "point", "coordinate_name": "x",
                   "coordinate_system": [0.0, 10.0], "map": [10.0 * v, 20.0 * v]}, open(f, "w"))
    return f


def encode(v):
    if v["t"] == "num":
        return v["v"]
    if v["t"] == "str":
        return map_file(v["v"])
    if v["t"] == "l5":
        return [map_file(v["m"])] * 3 + ["pa", "pb"]
    out = [map_file(v["m"]), map_file(v["l"]), map_file(v["u"])]
    return out + [v["p"]] if v["t"] == "l4" else out


def option(o, dflt):
    kw = {"name": o, "help": "h"}
    if dflt:
        kw["default"] = encode(dflt)
    if KINDS[o] == "const":
        return apt.Constant(type=int, **kw)
    if KINDS[o] == "map":
        return apt.Map(method="LERP", **kw)
    return apt.SigmaMap(method="LERP", **kw)


_n = [0]


def make_component(os_, dflt, llh, split):
    """Component of one or several plugins taking the options in this order."""
    _n[0] += 1
    groups = [[o] for o in os_] if split else [list(os_)]
    plugins, k = [], 0
    for g in groups:
        names = [f"d{k + i + 1}" for i in range(len(g))]

        def body(self, key, parameters, b, x=None, g=g):
            x = parameters["x_vf"]
            pos = jnp.zeros(b) + x
            out = []
            for o in g:
                c = getattr(self, o)
                if KINDS[o] == "const":
                    out.append(jnp.zeros(b) + c.value)
                elif KINDS[o] == "map":
                    out.append(c.apply(pos))
                else:
                    out.append(c.apply(pos, parameters))
            return (key, *out)
        pl = app.make_plugin(f"O{_n[0]}p{k}", names, ["batch_size"], body, ("x_vf",))
        plugins.append(apt.takes_config(*[option(o, dflt[o]) for o in g])(pl))
        k += len(g)
    app.publish(*plugins)

    class OC(apt.ComponentSim):
        norm_type = "on_sim"

    comp = OC(name=f"c{_n[0]}", llh_name=llh)
    for p in plugins:
        comp.register(p)
    return comp, [f"d{i + 1}" for i in range(len(os_))]


def caught(f):
    """(warning texts, error)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                f()
            return [str(x.message) for x in w], ""
        except Exception as e:
            return [str(x.message) for x in w], type(e).__name__


def run(sc):
    app.reset()
    dflt = {o: sc["dflt"][o] or None for o in KINDS}
    comps, ev = {}, []
    for i, o in enumerate(sc["ops"]):
        e = dict(o)
        if o["op"] == "set":
            c = o["c"]
            e = {"op": "set", "o": o["o"], "kind": c["kind"]}
            if c["kind"] == "s":
                e["v"] = c["v"]
                val = encode(c["v"])
            else:
                e["m"] = c["m"] or {}
                val = {k: encode(v) for k, v in e["m"].items()}
            _, e["err"] = app.attempt(apt.set_global_config, {o["o"]: val})
        elif o["op"] == "clear":
            _, e["err"] = app.attempt(apt.clear_cache)
        elif o["op"] == "report":
            ws, e["err"] = caught(apt.utils.check_unused_configs)
            text = " ".join(ws)
            e["warned"] = bool(ws)
            e["names"] = [k for k in KINDS if re.search(rf"\b{k}\b", text)]
        elif o["op"] == "build":
            comp, names = make_component(o["os"], dflt, o["llh"], (i + sc.get("split", 0)) % 2)

            def f():
                comp.deduce(data_names=list(names), func_name="sim_" + comp.name,
                            force_no_eff=True)
                comp.compile()
            _, e["err"] = app.attempt(f)
            e["need"] = sorted(comp.needed_parameters - {"x_vf"}) if not e["err"] else []
            if not e["err"]:
                comps[o["id"]] = (comp, o["os"])
        elif o["op"] == "sim":
            if o["id"] not in comps:
                ev.append({**e, "err": "not-built"})
                break
            comp, os_ = comps[o["id"]]
            e["os"], e["tab"] = os_, o["tab"] or {}
            par = {p: v / 2 for p, v in e["tab"].items()}
            par["x_vf"] = float(o["x"])
            res, e["err"] = app.attempt(comp.simulate, apt.randgen.get_key(seed=1), 2 + i % 3, par)
            e["got"] = []
            if not e["err"]:
                for r in res[1]:
                    v = np.unique(np.round(2 * np.asarray(r, dtype=float), 3))
                    e["got"].append(app.ints(v)[0] if len(v) == 1 else "several")
        ev.append(e)
    return {"dflt": {o: (dflt[o] or []) for o in KINDS}, "events": ev}


# ---- scenario construction ---------------------------------------------------------------
def num(v):
    return {"t": "num", "v": v}


def st(v):
    return {"t": "str", "v": v}


def l3(m, lo, u):
    return {"t": "l3", "m": m, "l": lo, "u": u}


def l4(m, lo, u, p):
    return {"t": "l4", "m": m, "l": lo, "u": u, "p": p}


def scal(o, v):
    return {"op": "set", "o": o, "c": {"kind": "s", "v": v}}


def dic(o, m):
    return {"op": "set", "o": o, "c": {"kind": "d", "m": m}}


def build(i, os_, llh):
    return {"op": "build", "id": i, "os": os_, "llh": llh}


def sim(i, x, tab):
    return {"op": "sim", "id": i, "x": x, "tab": tab}


REPORT = {"op": "report"}
