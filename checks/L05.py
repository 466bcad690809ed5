"""L05: likelihood of literature measurements."""
import types
import warnings

LEVEL = "model_checking"
RULE = ("literature likelihoods of the three types with 1 to 6 points on, inside and outside the band, "
        "weights 0, 1/2 and 1, not-a-number yields, aliases, shapes and batch sizes, generated by TLC from "
        "spec/MC_Lit.tla; creation with every type and dimension; non-trivial: distinct accepted scenarios")
ASSUMPTIONS = ["densities have integer parameters, so that the specification can evaluate them to 1e-6 "
               "with a table of logarithms",
               "TLC and the CommunityModules evaluate the specification correctly"]


def setup():
    global app, jnp, np, apt, jax
    import app
    from app import jnp, np, apt, jax


_n = [0]


def component(pts, shape2, swap, par):
    _n[0] += 1
    cols = [np.array([p[k] for p in pts], dtype=float) for k in ("x", "y", "e")]
    cols[1] = np.where([p["nan"] for p in pts], np.nan, cols[1])
    cols[2] = cols[2] / 2

    def body(self, key, parameters, b):
        k2 = jax.random.split(key)[0]
        sh = (b, len(pts)) if shape2 else (len(pts),)
        x, y, e = [jnp.broadcast_to(jnp.asarray(c), sh) for c in cols]
        y = y + parameters[par] + 50 * (b - 1)
        return (k2, y, x, e) if swap else (k2, x, e, y)
    prov = ["vfy", "vfx", "eff"] if swap else ["vfx", "eff", "vfy"]
    pl = app.make_plugin(f"Lit{_n[0]}", prov, ["batch_size"], body, (par,))
    app.publish(pl)

    def init(self, *a, **k):
        apt.ComponentSim.__init__(self, *a, **k)
        self.register(pl)
    cl = type(f"LitC{_n[0]}", (apt.ComponentSim,), {"norm_type": "on_pdf", "__init__": init})
    return cl


def arguments(sc):
    names = {"norm": [("loc", "m"), ("scale", "s")],
             "twohalfnorm": [("mu", "m"), ("sigma_pos", "p"), ("sigma_neg", "n")],
             "band": [("x", "x"), ("y", "m"), ("yerr_upper", "p"), ("yerr_lower", "n")]}[sc["vtype"]]
    return [[a for a, _ in names], [[float(r[k]) for r in sc["args"]] for _, k in names]]


def micro(v):
    v = float(v)
    if v == -np.inf:
        return {"k": "-inf", "v": 0}
    if not np.isfinite(v) or abs(v) > 2000:
        return {"k": "other", "v": 0}
    return {"k": "num", "v": round(v * 1e6)}


def run(sc):
    app.reset()
    ev = []
    if "dims" in sc:
        for vt, dim in sc["dims"]:
            c = {"bins_on": ["vfx", "vfy", "vfz"][:dim], "variable_type": vt,
                 "logpdf_args": arguments({"vtype": vt if vt in ("norm", "twohalfnorm", "band") else "norm",
                                           "args": [dict(x=i, m=1, s=1, p=1, n=1) for i in range(2)]})}
            _, err = app.attempt(apt.LikelihoodLit, name="lit", **c)
            ev.append({"op": "new", "vtype": vt, "dim": dim, "err": err})
        return {"vtype": "norm", "args": [], "pts": [], "events": ev}
    ids = {}

    def kid(key):
        return ids.setdefault(bytes(np.asarray(key).tobytes()), len(ids) + 1)
    par = "vfp"
    conf = {"bins_on": ["vfx", "vfy"], "variable_type": sc["vtype"], "logpdf_args": arguments(sc)}
    outer = par
    if sc["alias"]:
        outer = "vfq"
        conf["parameter_alias"] = {outer: par}
    llh, err = app.attempt(apt.LikelihoodLit, name="lit", **conf)
    ev.append({"op": "new", "vtype": sc["vtype"], "dim": 2, "err": err})
    if err:
        return {**sc, "events": ev}
    cl = component(sc["pts"], sc["shape2"], sc["swap"], par)
    _, err = app.attempt(llh.register_component, cl, "one")
    ev.append({"op": "register", "n": 1, "err": err})
    cl2 = component(sc["pts"], sc["shape2"], sc["swap"], par)
    _, err = app.attempt(llh.register_component, cl2, "two")
    ev.append({"op": "register", "n": 2, "err": err})
    ev.append({"op": "needs", "got": sorted(llh.needed_parameters), "want": [outer, "one_rate"]})
    for i, c in enumerate(sc["calls"]):
        key = apt.randgen.get_key(seed=c["seed"])
        tab = {outer: float(c["d"]), "one_rate": 1.0}
        e = {"op": "llh", **c, "left": kid(jax.random.split(key)[0])}
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if i % 2:
                    k2, v = llh.get_log_likelihood(key, c["batch"], tab)
                else:
                    k2, v = llh.get_log_likelihood(key=key, batch_size=c["batch"], parameters=tab)
                e.update(err="", val=micro(v), kout=kid(k2))
            except Exception as x:
                e["err"] = type(x).__name__
        e["warned"] = any("batch_size" in str(x.message) for x in w)
        ev.append(e)
    return {"vtype": sc["vtype"], "args": sc["args"], "pts": sc["pts"], "events": ev}


def check(c):
    c.mc_bg("MC_Lit", c.pick("MC_Lit", "MC_Lit_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Lit", "Gen_Lit", num=c.pick(30, 600), depth=12)
    dims = {"dims": [[t, d] for t in ("norm", "twohalfnorm", "band", "cauchy", "") for d in (1, 2, 3)]}
    c.run_all("Trace_Lit", gs + [dims])
