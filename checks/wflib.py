"""Driver for Workflow scenarios."""
M = 997


def setup():
    global app, jnp, np, apt
    import app
    from app import jnp, np, apt


def plugin_class(cname, p, pid):
    def body(self, key, parameters, *deps):
        batch = None
        tot = 0
        for j, (d, v) in enumerate(zip(p["dep"], deps)):
            if d == "batch_size":
                v = v + jnp.arange(v, dtype=int)
            tot = tot + (j + 2) * v
        if p["par"]:
            tot = tot + parameters[p["par"]]
        if p["rng"]:
            tot = tot + key[0]
            key = jnp.array([(key[0] * 7 + pid * 3 + 1) % M,
                             (key[1] * 5 + key[0] + pid) % M], dtype=int)
        out = []
        for o, (d, c) in enumerate(zip(p["prov"], p["c"]), start=1):
            v = ((tot % M) * (o + 1) + c) % M
            out.append((v % 4 - 1).astype(float) if d == "eff" else v)
        return (key, *out)

    return app.make_plugin(cname, p["prov"], p["dep"], body,
                           [p["par"]] if p["par"] else [])


_count = [0]


def run_workflow(sc, simulate=True):
    """sc: reg, req, noeff, runs=[{batch, key, pars, times, apply}]"""
    app.reset()
    _count[0] += 1
    tag = f"W{_count[0]}x"
    back = {}
    events = []
    classes = []
    for i, p in enumerate(sc["reg"]):
        c = plugin_class(tag + p["name"], p, i + 1)
        back[c.__name__] = p["name"]
        classes.append(c)
    app.publish(*classes)

    class WComp(apt.ComponentSim):
        norm_type = "on_sim"
    comp = WComp(name="comp", llh_name="llh")
    for p, c in zip(sc["reg"], classes):
        comp.register(c)
        events.append({"op": "register", "plugin": p})
    if sc.get("relist"):
        # registering the same list again in one go must not change anything
        comp.register(tuple(classes))
    req = tuple(sc["req"]) if sc.get("tuple") else list(sc["req"])
    _, err = app.attempt(comp.deduce, data_names=req, func_name="wf", force_no_eff=sc["noeff"])
    plan = []
    pars = []
    if not err:
        for w in comp.worksheet:
            plan.append({"name": back.get(w[0], "?" + w[0]), "prov": list(w[1]),
                         "dep": list(w[2])})
        pars = sorted(comp.needed_parameters)
    ev = {"op": "deduce", "req": list(sc["req"]), "noeff": sc["noeff"], "err": err, "plan": plan}
    if sc.get("observe_pars"):
        ev["pars"] = pars
    events.append(ev)
    if err or not simulate:
        return {"events": events}
    _, err = app.attempt(comp.compile)
    for r in sc["runs"]:
        ev = {"op": "run", **r, "err": err, "out": [], "keyout": []}
        if not err:
            key = jnp.array(r["key"], dtype=int)
            if r["times"] == 1 and not r["apply"]:
                res, e2 = app.attempt(comp.simulate, key, r["batch"], r["pars"])
            else:
                res, e2 = app.attempt(comp.multiple_simulations, key, r["batch"], r["pars"],
                                      r["times"], r["apply"])
            ev["err"] = e2
            if not e2:
                k, out = res
                ev["keyout"] = app.ints(k)
                ev["out"] = [app.ints(o) for o in out]
        events.append(ev)
    return {"events": events}


def run_llh_keys(sc):
    """A likelihood of several simulated (and fixed) components: how the key travels."""
    import os
    app.reset()
    _count[0] += 1
    tag = f"K{_count[0]}x"
    events = []
    csv = os.path.join(app.SCRATCH, "k.csv")
    with open(csv, "w") as f:
        f.write("d1,d2\n" + "\n".join(f"{3 * i + 1},{5 * i + 2}" for i in range(40)) + "\n")
    with app.quiet():
        llh = apt.Likelihood(name="lk", data_file_name=csv, bins_type="irreg", bins_on=["d1", "d2"],
                             bins=[[0, 300, 997], [[0, 500, 997], [0, 200, 997]]],
                             x_clip=[0, 997], y_clip=[0, 997])
    pars = dict(sc["pars"])
    for n, comp in enumerate(sc["comps"]):
        cname = comp["name"]
        pars[cname + "_rate"] = 10.0
        if comp["fixed"]:
            class FComp(apt.ComponentFixed):
                norm_type = "on_pdf"
            _, err = app.attempt(llh.register_component, FComp, cname, csv)
            if err:
                events.append({"op": "fact", "holds": False, "name": "register-fixed-component"})
            continue
        classes, back = [], {}
        for i, p in enumerate(comp["reg"]):
            c = plugin_class(f"{tag}{n}{p['name']}", p, i + 1)
            classes.append(c)
            back[c.__name__] = p["name"]
            events.append({"op": "register", "plugin": p})
        app.publish(*classes)

        class SComp(apt.ComponentSim):
            norm_type = "on_sim"

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                for x in classes:
                    self.register(x)
        _, err = app.attempt(llh.register_component, SComp, cname)
        if err:
            events.append({"op": "fact", "holds": False, "name": "register-component-" + err})
            return {"events": events}
        plan = [{"name": back[w[0]], "prov": list(w[1]), "dep": list(w[2])}
                for w in llh[cname].worksheet]
        events.append({"op": "deduce", "req": ["d1", "d2"], "noeff": False, "err": "",
                       "plan": plan})
        events.append({"op": "component", "name": cname})
    for key in sc["keys"]:
        for how in ("ll", "wd"):
            f = llh.get_log_likelihood if how == "ll" else llh.simulate_weighted_data
            res, err = app.attempt(f, jnp.array(key, dtype=int), sc["batch"], pars)
            events.append({"op": "llh", "how": how, "key": key, "err": err,
                           "keyout": [] if err else app.ints(res[0])})
    return {"events": events}


def run_real_keys(sc):
    """Shipped components with real random keys."""
    app.reset()
    ev = []

    def fact(name, holds):
        ev.append({"op": "fact", "name": name, "holds": bool(holds)})
    base = getattr(apt.components, sc["component"])
    comp = base(name="c", llh_name="l")
    data = sc["data"]
    _, err = app.attempt(comp.deduce, data_names=list(data), func_name="f")
    if not err:
        _, err = app.attempt(comp.compile)
    fact("shipped-component-compiles", not err)
    if err:
        return {"events": ev}
    with app.quiet():
        pars = apt.Parameter(apt.utils.get_file_path(sc["par_file"]))
        pars.init_parameter(seed=sc["seed"])
        pars = dict(pars.get_all_parameter())
        key = apt.randgen.get_key(seed=sc["seed"])
        n = sc["batch"]
        eq = lambda a, b: all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)
                              for x, y in zip(a, b)) and len(a) == len(b)
        k1, r1 = comp.simulate(key, n, pars)
        k1b, r1b = comp.simulate(key, n, pars)
        fact("same-key-same-result", eq(r1, r1b) and eq([k1], [k1b]))
        fact("key-is-updated", not eq([key], [k1]))
        k2, r2 = comp.simulate(k1, n, pars)
        fact("next-key-gives-new-events", not eq(r1[:-1], r2[:-1]))
        km, rm = comp.multiple_simulations(key, n, pars, 2)
        fact("repeated-simulations-continue-the-key", eq([km], [k2]))
        fact("repeated-simulations-concatenate",
             eq(rm, [np.hstack([a, b]) for a, b in zip(r1, r2)]))
        km, rm = comp.multiple_simulations(key, n, pars, 2, apply_eff=True)
        both = [np.hstack([a, b]) for a, b in zip(r1, r2)]
        m = both[-1] > 0
        fact("apply_eff-keeps-accepted-events", eq(rm, [b[m] for b in both]))
    return {"events": ev}
