"""Driver for Session scenarios: configuration, deduction, compilation, simulation."""
import json
import os


def setup():
    global app, jnp, np, apt
    import app
    from app import jnp, np, apt


# the components of spec/MC_Session.tla (C6, D6)
COMPS = {
    "a": {"llh": "l1", "name": "x", "func": "f", "keys": ["k1", "k3"]},
    "b": {"llh": "l1", "name": "y", "func": "g", "keys": ["k1", "k2", "k4"]},
    "c": {"llh": "l2", "name": "x", "func": "f", "keys": ["k1", "k3", "k4"]},
    "d": {"llh": "l2", "name": "y", "func": "f", "keys": ["k2"]},
    "e": {"llh": "l1", "name": "x", "func": "h", "keys": ["k3"]},
    "g": {"llh": "l3", "name": "z", "func": "f", "keys": ["k4", "k3", "k2", "k1"]},
}
DFLT = {"k1": 1, "k2": 0, "k3": 2, "k4": 3}


def map_file(v):
    f = os.path.join(app.SCRATCH, f"const_{v}.json")
    if not os.path.exists(f):
        json.dump({"coordinate_type": "point", "coordinate_name": "x",
                   "coordinate_system": [0.0, 5.0, 10.0], "map": [v, v, v]}, open(f, "w"))
    return f


def encode(k, v, flt=False):
    if k in ("k1", "k2"):
        return float(v) if flt else v
    if k == "k3":
        return map_file(v)
    return [["p", "q"], [[v, v + 1], [0, v]]]


def decode(k, x):
    if x is None or (isinstance(x, float) and x != x) or \
            (isinstance(x, str) and "OMITTED" in x):
        return 0
    if k == "k3":
        return int(os.path.basename(x)[6:-5])
    if k == "k4":
        return x[1][0][0]
    return int(x)


_n = [0]


def classes():
    """One plugin per option, and a second user of option k1."""
    _n[0] += 1
    out = {}

    def conf(k):
        kw = {"name": k, "default": encode(k, DFLT[k])} if DFLT[k] else {"name": k}
        if k in ("k1", "k2"):
            return apt.Constant(type=int, help="h", **kw)
        if k == "k3":
            return apt.Map(method="LERP", help="h", **kw)
        return apt.ConstantSet(type=list, help="h", **kw)

    for prov, k in [("v1", "k1"), ("w1", "k1"), ("v2", "k2"), ("v3", "k3"), ("v4", "k4")]:
        def body(self, key, parameters, b, k=k):
            o = getattr(self, k)
            if k == "k3":
                x = o.apply(jnp.array([5.0]))[0]
            elif k == "k4":
                x = jnp.asarray(o.value["p"][0]) + 0.0
            else:
                x = o.value + 0.0
            return key, jnp.zeros(b) + x
        c = app.make_plugin(f"S{_n[0]}{prov}", [prov], ["batch_size"], body)
        out[prov] = apt.takes_config(conf(k))(c)
    return out


def run_session(sc):
    app.reset()
    cl = classes()
    app.publish(*cl.values())
    comps = {}
    for c, ci in sc["comps"].items():
        class SC(apt.ComponentSim):
            norm_type = "on_sim"
        comp = SC(name=ci["name"], llh_name=ci["llh"])
        need = []
        for k in ci["keys"]:
            need += ["v" + k[1]] + (["w1"] if k == "k1" else [])
        for p in need:
            comp.register(cl[p])
        comps[c] = (comp, need)
    events = []
    for i, o in enumerate(sc["ops"]):
        e = dict(o)
        if o["op"] == "set":
            e["m"] = m = o["m"] or {}
            k = o["k"]
            flt = bool((i + sc.get("flt", 0)) % 2)
            if o["kind"] == "s":
                conf = {k: encode(k, o["v"], flt)}
            elif o["kind"] == "d":
                conf = {k: {x: encode(k, y, flt) for x, y in m.items()}}
            elif o["kind"] == "bad":
                conf = {k: None}
            else:
                conf = {k: "no_such_file_vf.json"}
            _, e["err"] = app.attempt(apt.set_global_config, conf)
        elif o["op"] == "clear_all":
            _, e["err"] = app.attempt(apt.clear_cache)
        elif o["op"] == "clear_functions":
            _, e["err"] = app.attempt(apt.share._cached_functions.clear)
        else:
            comp, need = comps[o["c"]]
            e["val"] = {}
            if o["op"] == "deduce":
                _, e["err"] = app.attempt(comp.deduce, data_names=list(need),
                                          func_name=sc["comps"][o["c"]]["func"],
                                          force_no_eff=True)
            elif o["op"] == "compile":
                _, e["err"] = app.attempt(comp.compile)
            elif o["op"] == "simulate":
                res, e["err"] = app.attempt(comp.simulate, jnp.array([1, 2]), 2 + i % 3, {})
                if not e["err"]:
                    val = {}
                    for p, r in zip(need, res[1]):
                        v = app.ints(np.unique(np.asarray(r)))
                        v = v[0] if len(v) == 1 else -1
                        k = "k" + p[1]
                        val[k] = v if val.get(k, v) == v else -1
                    e["val"] = val
            elif o["op"] == "show":
                df, e["err"] = app.attempt(comp.show_config, list(need))
                if not e["err"]:
                    for _, r in df.iterrows():
                        k = r["option"]
                        v = decode(k, r["current"]) or decode(k, r["default"])
                        e["val"][k] = v if e["val"].get(k, v) == v else -1
        events.append(e)
    return {"comps": sc["comps"], "dflt": DFLT, "events": events}


def with_shows(rng, ops, comps, prob=0.15):
    """Insert show_config calls where every per-likelihood option names the likelihood."""
    out, cache = [], {}
    for o in ops:
        out.append(o)
        if o["op"] == "set" and o["kind"] in "sd":
            cache[o["k"]] = o
        if o["op"] == "clear_all":
            cache = {}
        if rng.random() < prob:
            c = rng.choice(sorted(comps))
            if all(k not in cache or cache[k]["kind"] == "s" or
                   comps[c]["llh"] in (cache[k]["m"] or {}) for k in comps[c]["keys"]):
                out.append({"op": "show", "c": c})
    return out
