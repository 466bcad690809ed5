"""Driver for model scenarios (contexts of likelihoods of components)."""
import copy
import json
import os

from parlib import config, micro
import parlib


def setup():
    global app, jnp, np, apt
    parlib.setup()
    import app
    from app import jnp, np, apt


_n = [0]


def point_map(v):
    f = os.path.join(app.SCRATCH, f"sg_{v}.json")
    if not os.path.exists(f):
        json.dump({"coordinate_type": "point", "coordinate_name": "x",
                   "coordinate_system": [0.0, 5.0, 10.0], "map": [v, v, v]}, open(f, "w"))
    return f


def data_file(name, rows):
    f = os.path.join(app.SCRATCH, name + ".csv")
    with open(f, "w") as o:
        o.write("d1,d2\n" + "".join(f"{a},{b}\n" for a, b in rows))
    return f


def comp_class(tag, c, norm, auto):
    """Component class (and its plugins) of one component description."""
    if c["fixed"]:
        return type(f"{tag}{c['name']}F", (apt.ComponentFixed,), {"norm_type": norm}), [], {}
    pars = list(c["pars"])
    sg = c["sigma"]
    conf = {}
    cfgname = f"sm_{tag}{c['name']}" if not auto else sg[:-len("_sigma")]

    def body(self, key, parameters, b):
        d1 = 0
        for j, p in enumerate(pars):
            d1 = d1 + 10 ** j * parameters[p]
        d2 = 5
        if sg:
            d2 = getattr(self, cfgname).apply(jnp.array([5.0]), parameters)[0]
        return key, jnp.zeros(b) + d1, jnp.zeros(b) + d2

    pl = app.make_plugin(f"{tag}{c['name']}D", ["d1", "d2"], ["batch_size"], body, pars)
    if sg:
        files = [point_map(10), point_map(8), point_map(13)]
        pl = apt.takes_config(apt.SigmaMap(name=cfgname, method="LERP", help="h",
                                           default=files if auto else files + [sg]))(pl)
    eff = app.make_plugin(f"{tag}{c['name']}E", ["eff"], ["d1"],
                          lambda self, key, parameters, d: (key, jnp.ones(len(d))))

    def init(self, *a, **k):
        apt.ComponentSim.__init__(self, *a, **k)
        self.register((pl, eff))
    cl = type(f"{tag}{c['name']}S", (apt.ComponentSim,), {"norm_type": norm, "__init__": init})
    return cl, [pl, eff], conf


def build(sc):
    """Context of the scenario; returns (context or None, error, events)."""
    import types
    app.reset()
    _n[0] += 1
    tag = f"M{_n[0]}x"
    mod = types.ModuleType(f"vfcomp{_n[0]}")
    llhs = {}
    for i, l in enumerate(sc["llhs"]):
        comps = {}
        for j, c in enumerate(l["comps"]):
            norm = ["on_pdf", "on_sim"][(i + j + sc.get("norm", 0)) % 2]
            cl, plugins, _ = comp_class(f"{tag}l{i}", c, norm,
                                        c["sigma"].startswith("auto_"))
            if plugins:
                app.publish(*plugins)
            setattr(mod, cl.__name__, cl)
            if c["fixed"]:
                f = data_file(f"fx{c['m']}", [(k, k + 1) for k in range(1, c["m"] + 1)])
                comps[c["name"]] = {"component_cls": cl.__name__, "file_name": f}
            elif (i + j) % 2:
                comps[c["name"]] = {"component_cls": cl.__name__}
            else:
                comps[c["name"]] = cl.__name__
        d = {"components": comps, "copy_parameters": dict(l["copies"] or {}),
             "data_file_name": data_file(f"n{l['n']}", [(3, 5)] * l["n"] + [(5000, 5)]),
             "bins_type": "irreg", "bins_on": ["d1", "d2"],
             "bins": [[-1, 1000], [[-100, 1000]]], "x_clip": [-1, 1000], "y_clip": [-100, 1000]}
        if l["alias"]:
            d["parameter_alias"] = dict(l["alias"])
        llhs[l["name"]] = d
    with app.quiet():
        apt.add_component_extensions(apt.components, mod, force=True)
    instruct = {"par_config": config(sc["cfg"]), "likelihoods": llhs}
    if sc.get("configs"):
        instruct["configs"] = sc["configs"]
    return app.attempt(apt.Context, instruct)


def obs_value(v):
    v = float(v)
    if v == -np.inf:
        return {"k": "-inf", "v": 0}
    if not np.isfinite(v) or abs(v) > 2000:
        return {"k": "other", "v": 0}
    return {"k": "num", "v": round(v * 1e6)}


class Recorder:
    def __init__(self, inner, name, log, ids, stub, values):
        self.inner, self.name, self.log, self.ids, self.stub = inner, name, log, ids, stub
        self.values = values

    def kid(self, key):
        return self.ids.setdefault(bytes(np.asarray(key).tobytes()), len(self.ids) + 1)

    def get_log_likelihood(self, key, batch_size, parameters):
        e = {"llh": self.name, "batch": batch_size, "kin": self.kid(key),
             "tab": {k: int(v) if float(v) == int(v) else "frac" for k, v in parameters.items()}}
        if self.stub:
            import jax
            k2 = jax.random.split(key)[0]
            v = self.values[len(self.log) % len(self.values)]
            e["val"] = {"k": "num", "v": round(v * 1e6)}
        else:
            k2, v = self.inner.get_log_likelihood(key, batch_size, parameters)
            e["val"] = obs_value(v)
        e["kout"] = self.kid(k2)
        self.log.append(e)
        return k2, v


def run_model(sc):
    ctx, err = build(sc)
    ev = [{"op": "needs", "err": err, "comps": [], "llhs": [], "ctx": [], "provided": []}]
    head = {"llhs": sc["llhs"], "given": sorted(sc["cfg"]), "cfg": sc["cfg"]}
    if err:
        return {**head, "events": ev}
    names = [l["name"] for l in sc["llhs"]]
    e = ev[0]
    e["comps"] = [[sorted(ctx[l["name"]][c["name"]].needed_parameters) for c in l["comps"]]
                  for l in sc["llhs"]]
    e["llhs"] = [sorted(ctx[n].needed_parameters) for n in names]
    e["ctx"] = sorted(ctx.needed_parameters)
    allp = ctx.par_manager.get_all_parameter()
    e["provided"] = sorted(allp)
    ev.append({"op": "prior-config", "src": {p: ctx.par_manager.par_config[p].get("doc", "?")
                                             for p in allp}})
    _, err = app.attempt(ctx.print_context_summary, short=bool(len(names) % 2))
    ev.append({"op": "sanity", "err": err})
    for o in sc["ops"]:
        e = dict(o)
        if o["op"] in ("loglike", "weighted"):
            llh = ctx[names[o["i"] - 1]]
            tab = dict(o["tab"])
            f = llh.get_log_likelihood if o["op"] == "loglike" else llh.simulate_weighted_data
            key = apt.randgen.get_key(seed=3)
            if o.get("kw"):
                res, e["err"] = app.attempt(f, key, batch_size=o["batch"], parameters=tab)
            else:
                res, e["err"] = app.attempt(f, key, o["batch"], tab)
            e["kept"] = tab == o["tab"]
            if not e["err"]:
                if o["op"] == "loglike":
                    e["val"] = obs_value(res[1])
                else:
                    d = res[1]
                    e["d1"], e["d2"] = app.ints(d[0]), app.ints(d[1])
                    e["w"] = [round(float(x) * 1e4) for x in d[2]]
        elif o["op"] == "posterior":
            log, ids = [], {}
            keep = dict(ctx.likelihoods)
            for n in names:
                ctx.likelihoods[n] = Recorder(keep[n], n, log, ids, o["stub"],
                                              o.get("values", [0.0]))
            res, e["err"] = app.attempt(ctx.log_posterior, dict(o["upd"]), batch_size=o["batch"],
                                        repeat_times=o["rep"])
            ctx.likelihoods.update(keep)
            e["calls"] = log
            if not e["err"]:
                e["val"], e["prior"] = obs_value(res[0]), obs_value(res[1])
        ev.append(e)
    return {**head, "events": ev}


# ---- scenario construction (inputs only; no oracle) -----------------------------------------
def needs(l):
    inv = {v: k for k, v in (l["alias"] or {}).items()}
    out = set()
    for c in l["comps"]:
        s = {c["name"] + "_rate"} | (set() if c["fixed"] else
                                     set(c["pars"]) | ({c["sigma"]} - {""}))
        out |= {inv.get(p, p) for p in s}
    return out


def prior(rng, p):
    t = rng.choice(["norm", "uniform", "free", "fixed", "twohalfnorm"])
    if t == "fixed":
        c = {"t": "fixed", "a": rng.randint(0, 6)}
    elif t == "norm":
        c = {"t": "norm", "a": rng.randint(0, 6), "b": rng.choice([1, 2, 4])}
    elif t == "twohalfnorm":
        q = rng.choice([(1, 1), (2, 1), (1, 2), (2, 3)])
        c = {"t": t, "a": rng.randint(0, 6), "p": q[0], "n": q[1]}
    elif t == "uniform":
        c = {"t": t, "a": 0, "b": 8}
    else:
        c = {"t": "free"}
    c.update({"lo": 0, "hi": rng.choice([8, 9]), "im": 3, "is": 2})
    return c


def expand(w, rng, copies=True, insane=0.25):
    """World from the specification -> scenario with priors, copies and operations."""
    w = copy.deepcopy(w)
    ls = w["llhs"]
    for i, l in enumerate(ls):
        l["alias"] = l["alias"] or {}
        l["copies"] = {}
        for c in l["comps"]:
            if c["sigma"] == "auto":
                c["sigma"] = f"auto_{l['name']}_{c['name']}_sigma"
        # the internal names of aliases may not be outer names at the same time
    if len(ls) > 1 and rng.random() < 0.4:
        # the same component name (and rate) in two likelihoods
        old = ls[1]["comps"][0]["name"]
        new = ls[0]["comps"][0]["name"]
        ls[1]["comps"][0]["name"] = new
        for k, v in ls[1]["alias"].items():
            if v == old + "_rate":
                ls[1]["alias"][k] = new + "_rate"
    allneeds = set().union(*[needs(l) for l in ls])
    given = set(allneeds)
    sources = []
    if copies and rng.random() < 0.6:
        for l in ls:
            for p in sorted(needs(l)):
                if p in given and rng.random() < 0.25:
                    src = rng.choice(["base", "base2"] + [x for x in sorted(given)
                                                          if x.endswith("_rate") and x != p])
                    done = {k: v for m in ls for k, v in m["copies"].items()}
                    if src in done or p in sources:
                        continue
                    # which of several sources of one copy counts is nobody's promise
                    src = done.get(p, src)
                    l["copies"][p] = src
                    sources.append(src)
                    if rng.random() < 0.8:
                        given.discard(p)
                    given.add(src)
    x = rng.random()
    if x < insane / 2:
        given.add("junk")
    elif x < insane and len(given) > 1:
        drop = [p for p in sorted(given) if p not in sources]
        if drop:
            given.discard(rng.choice(drop))
    cfg = {p: prior(rng, p) for p in sorted(given)}
    return {"llhs": ls, "cfg": cfg, "norm": rng.randrange(2), "ops": []}


def table(rng, names):
    return {p: rng.randint(-2, 3) if p.startswith("auto") or p.startswith("s_") else
            rng.randint(0, 9) for p in sorted(names)}


def llh_ops(sc, rng, n=6):
    for _ in range(n):
        i = rng.randrange(len(sc["llhs"]))
        l = sc["llhs"][i]
        tab = table(rng, needs(l))
        x = rng.random()
        if x < 0.15 and tab:
            tab.pop(rng.choice(sorted(tab)))
        elif x < 0.4:
            # unrelated names and internal names of aliases are present as well
            tab.update(table(rng, set(l["alias"].values()) | {"other"}))
        elif x < 0.5:
            tab.update({p: 0 for p in tab if p.endswith("_rate")})
            tab.update({k: 0 for k, v in l["alias"].items() if v.endswith("_rate")})
        sc["ops"].append({"op": rng.choice(["loglike", "weighted"]), "i": i + 1, "tab": tab,
                          "batch": rng.choice([1, 2]), "kw": rng.random() < 0.5})
    return sc


def provided(sc):
    ls = sc["llhs"]
    src = {v for l in ls for v in l["copies"].values()}
    new = {k: v for l in ls for k, v in l["copies"].items()}
    rates = {c["name"] + "_rate" for l in ls for c in l["comps"]}
    p = (set(sc["cfg"]) | set(new)) - (src - rates)
    return {k: sc["cfg"][new.get(k, k)] for k in sorted(p)}


def post_ops(sc, rng, n=6, stub=0.6):
    prov = provided(sc)
    fit = [p for p, c in prov.items() if c["t"] != "fixed"]
    for k in range(n):
        upd = {p: (rng.randint(0, 3) if p.startswith(("auto", "s_")) else rng.randint(0, 8))
               for p in fit}
        x = rng.random()
        if k and x < 0.2 and fit:
            upd = {p: upd[p] for p in rng.sample(fit, rng.randrange(len(fit)) + 1)}
        elif x < 0.35 and fit:
            p = rng.choice(fit)
            upd[p] = rng.choice([-1, 10, prov[p]["hi"] + 1])
        elif x < 0.42 and k:
            upd["nosuch"] = 1
        elif x < 0.55 and fit:
            p = rng.choice(fit)
            upd[p] = rng.choice([0, prov[p]["hi"]])
        sc["ops"].append({"op": "posterior", "upd": upd, "batch": rng.choice([1, 2]),
                          "rep": rng.choice([1, 1, 2, 3]), "stub": rng.random() < stub,
                          "values": [rng.randint(-50, 50) / 4 for _ in range(7)]})
    return sc
