"""Driver for histogram / likelihood scenarios."""
import copy
import os

from modlib import obs_value as _obs


def setup():
    global app, jnp, np, apt, SLOTS
    import modlib
    modlib.setup()
    import app
    from app import jnp, np, apt
    SLOTS = [slot(s) for s in range(3)]
    app.publish(*[c for s in SLOTS for c in s.values()])


def obs(v):
    v = float(v)
    if v == -np.inf:
        return {"k": "-inf", "v": 0}
    if not np.isfinite(v) or abs(v) > 2000:
        return {"k": "other", "v": 0}
    return {"k": "num", "v": round(v * 1e6)}


class _G4:
    n_events_selected = 0


def slot(s):
    """Plugins of component slot s: they return the events given as parameters."""
    def pts(a):
        def body(self, key, parameters, b):
            return key, parameters[f"h{s}_{a}"] + jnp.zeros(b)
        return body

    def e_pts(a):
        def body(self, key, parameters, e):
            return key, parameters[f"h{s}_{a}"] + 0 * e
        return body

    def energy(self, key, parameters, b):
        return key, jnp.zeros(b)

    def eff(self, key, parameters, d):
        from jax import random
        key, _ = random.split(key)
        return key, parameters[f"h{s}_e"] + 0 * d

    boot = app.make_plugin(f"H{s}BootstrapEnergy", ["energy"], ["batch_size"], energy)
    boot.g4 = _G4
    return {
        "X": app.make_plugin(f"H{s}X", ["d1"], ["batch_size"], pts("x"), [f"h{s}_x"]),
        "Y": app.make_plugin(f"H{s}Y", ["d2"], ["d1"], e_pts("y"), [f"h{s}_y"]),
        "E": app.make_plugin(f"H{s}E", ["eff"], ["d1"], eff, [f"h{s}_e"]),
        "B": boot,
        "P": app.make_plugin(f"H{s}PlainEnergy", ["energy"], ["batch_size"], energy),
        "BX": app.make_plugin(f"H{s}BX", ["d1"], ["energy"], e_pts("x"), [f"h{s}_x"]),
    }


def csv(name, pts, dim):
    f = os.path.join(app.SCRATCH, name + ".csv")
    with open(f, "w") as o:
        o.write("junk,d2,d1\n" + "".join(
            f"7,{p[1] if dim == 2 else 3},{p[0]}\n" for p in pts))
    return f


def comp_class(s, c, n):
    base = apt.ComponentFixed if c["fixed"] else apt.ComponentSim
    d = {"norm_type": c["norm"] if c["norm"] != "bad" else "on_nothing",
         "add_eps_to_hist": c["eps"]}
    if not c["fixed"]:
        sl = SLOTS[s]
        if c["boot"]:
            reg = (sl["BX"], sl["Y"], sl["E"], sl["B"])
        elif n % 2:
            reg = (sl["X"], sl["Y"], sl["E"])
        else:
            reg = (sl["BX"], sl["P"], sl["Y"], sl["E"])

        def init(self, *a, **k):
            apt.ComponentSim.__init__(self, *a, **k)
            self.register(reg)
        d["__init__"] = init
    return type(f"HC{s}", (base,), d)


_n = [0]


def likelihood_config(cfg):
    d = cfg["dim"]
    t = cfg["type"]
    if t in ("equi", "equi-int"):
        bins = cfg["nb"][:d]
    elif t == "irreg":
        bins = [cfg["ex"]] if d == 1 else [cfg["ex"], cfg["ey"]]
    else:
        bins = [cfg["nb"][0] or cfg["ex"]]
        if d == 2:
            bins.append(cfg["nb"][1] or cfg["ey"][0])
    out = {"data_file_name": csv("data", cfg["data"] + cfg["extra"], d),
           "bins_type": {"equi-int": "equiprob", "equi": "equiprob", "mesh": "meshgrid"}.get(t, t),
           "bins_on": ["d1", "d2"][:d], "bins": bins}
    if d == 1:
        if cfg.get("as_str"):
            out["bins_on"] = "d1"
            if isinstance(bins[0], int):
                out["bins"] = bins[0]
        out["clip"] = cfg["clip"][0]
    else:
        out["x_clip"], out["y_clip"] = cfg["clip"]
    if t == "equi-int":
        out["integer"] = True
        out["left"] = cfg["left"]
    return out


def run_hist(sc):
    app.reset()
    cfg = sc["cfg"]
    d = cfg["dim"]
    _n[0] += 1
    conf = likelihood_config(cfg)
    llh, err = app.attempt(lambda: apt.Likelihood(name="hl", **conf))
    e = {"op": "build", "err": err}
    ev = [e]
    head = {"cfg": cfg}
    if err:
        return {**head, "events": ev}
    e["sel"] = [list(map(int, p)) for p in np.asarray(llh.data)]
    six = lambda a: [round(float(v) * 1e6) for v in np.asarray(a)]
    e["x"] = six(llh._bins[0])
    if d == 1:
        e["y"] = []
    else:
        y = np.asarray(llh._bins[1])
        e["y"] = [six(r) for r in (y[None] if y.ndim == 1 else y)]
    e["hist"] = app.ints(llh.data_hist)
    comps = cfg["comps"]
    fx = csv("fixed", cfg["fixedpts"], d)
    for i, c in enumerate(comps):
        cl = comp_class(i, c, _n[0] + i)
        _, err = app.attempt(llh.register_component, cl, f"c{i}", fx if c["fixed"] else None)
        if err:
            return {**head, "events": ev + [{"op": "crash", "err": "register " + err}]}
    for o in sc["ops"]:
        e = dict(o)
        pars = {}
        for i, (c, oc) in enumerate(zip(comps, o["comps"])):
            pars[f"c{i}_rate"] = {99999: float("inf"), 99998: float("nan")}.get(
                oc["rate"], float(oc["rate"]))
            if c["fixed"]:
                continue
            p = np.array(oc["pts"], dtype=np.float32).reshape(-1, d)
            pars[f"h{i}_x"] = jnp.array(p[:, 0])
            if d == 2:
                pars[f"h{i}_y"] = jnp.array(p[:, 1])
            pars[f"h{i}_e"] = jnp.array(np.array(oc["eff"]) / 4, dtype=jnp.float32)
        key = apt.randgen.get_key(seed=5)

        for i, c in enumerate(comps):
            if c["boot"]:
                SLOTS[i]["B"].g4 = type("G4", (), {"n_events_selected": c["boot"]})
        if o["op"] == "hist":
            def f():
                hs = []
                for i, c in enumerate(comps):
                    cc = llh[f"c{i}"]
                    h = cc.simulate_hist(pars) if c["fixed"] else \
                        cc.simulate_hist(key, o["batch"], pars)[1]
                    hs.append([obs(v) for v in np.asarray(h).ravel()])
                kout, l = llh.get_log_likelihood(key, o["batch"], pars)
                total = llh.get_num_events_accepted(o["batch"], pars)
                return hs, l, total, kout
            res, e["err"] = app.attempt(f)
            if not e["err"]:
                e["hists"], e["llh"], e["total"] = res[0], obs(res[1]), obs(res[2])
                e["kout"] = "same" if np.array_equal(np.asarray(res[3]), np.asarray(key)) else "new"
        else:
            res, e["err"] = app.attempt(llh.simulate_weighted_data, key, o["batch"], pars)
            if not e["err"]:
                r = res[1]
                e["pts"] = [[int(v) for v in p] for p in np.array(r[:-1]).T]
                e["w"] = [obs(v) for v in r[-1]]
        ev.append(e)
        if o.get("noeff"):
            i = o["noeff"] - 1
            c, oc = comps[i], o["comps"][i]

            def g():
                cc = comp_class(i, c, _n[0] + i)(name="alone", llh_name=f"al{len(ev)}",
                                                 bins=llh._bins,
                                                 bins_type=llh.component_bins_type)
                cc.rate_name = f"c{i}_rate"
                cc.deduce(data_names=["d1", "d2"][:d], func_name="alone_sim", force_no_eff=True)
                cc.compile()
                return np.asarray(cc.simulate_hist(key, o["batch"], pars)[1]).ravel()
            h, err = app.attempt(g)
            ev.append({"op": "noeff", "i": i + 1, "pts": oc["pts"], "rate": oc["rate"], "err": err,
                       "h": [] if err else [obs(v) for v in h]})
    return {**head, "events": ev}


BAD = {
    "type": lambda c: c.update(bins_type="nonsense"),
    "equi-edges": lambda c: c.update(bins_type="equiprob", bins=[[0, 1, 2], [0, 1]]),
    "equi-float": lambda c: c.update(bins_type="equiprob", bins=[2.0, 2]),
    "x-length": lambda c: c.update(bins_type="irreg", bins=[[0, 9, 20, 30], [[0, 5, 9], [0, 4, 8]]]),
    "x-length2": lambda c: c.update(bins_type="irreg", bins=[[0, 9], [[0, 5, 9], [0, 4, 8]]]),
    "x-length3": lambda c: c.update(bins_type="irreg", bins=[[0, 9, 20], [[0, 5, 9], [0, 4, 8], [0, 1, 2]]]),
    "ragged": lambda c: c.update(bins_type="irreg", bins=[[0, 9, 20], [[0, 5, 9], [0, 4]]]),
    "bins-on": lambda c: c.update(bins_on=("d1", "d2")),
    "bins-not-list": lambda c: c.update(bins=5),
    "bins-missing": lambda c: c.update(bins_type="meshgrid", bins=[3]),
    "bins-extra": lambda c: c.update(bins_type="equiprob", bins=[3, 2, 2]),
    "3d": lambda c: c.update(bins_on=["d1", "d2", "junk"], bins_type="meshgrid", bins=[2, 2, 2]),
    "no-column": lambda c: c.update(bins_on=["d1", "nosuch"]),
    "no-file": lambda c: c.update(data_file_name="nosuch_file.csv"),
}


def run_bad(sc):
    app.reset()
    f = csv("bad", [(k, 40 - k) for k in range(1, 31)], 2)
    conf = {"data_file_name": f, "bins_type": "equiprob", "bins_on": ["d1", "d2"], "bins": [2, 2],
            "x_clip": [0, 40], "y_clip": [0, 50]}
    ev = []
    for case in sc["bad"]:
        c = copy.deepcopy(conf)
        BAD[case](c)
        _, err = app.attempt(lambda: apt.Likelihood(name="hb", **c))
        ev.append({"op": "refuse", "case": case, "err": err})
    return {"cfg": 0, "events": ev}


def run_raw(sc):
    """The binning functions and Component.implement_binning on arbitrary points."""
    from appletree import hist as H
    ev = []
    for o in sc["raw"]:
        b = o["b"]
        d = 2 if b["y"] else 1
        den = b["den"]
        x = np.array(b["x"]) / den[0]
        bins = [jnp.array(x)]
        if d == 2:
            y = np.array(b["y"]) / den[1]
            bins.append(jnp.array(y if b["kind"] == "irreg" else y[0]))
        p = jnp.array(np.array(o["pts"], dtype=np.float32).reshape(-1, d))
        w = jnp.array(np.array(o["w"]) / 4, dtype=jnp.float32)

        def f():
            if o["via"] == "component":
                c = apt.ComponentSim(name="rc", llh_name="rl", bins=tuple(bins),
                                     bins_type="meshgrid" if b["kind"] == "mesh" else "irreg")
                c.add_eps_to_hist = False
                return c.implement_binning(p, w)
            if b["kind"] == "mesh":
                return H.make_hist_mesh_grid(p, bins=tuple(bins), weights=w)
            if d == 1:
                return H.make_hist_irreg_bin_1d(p[:, 0], bins[0], weights=w)
            return H.make_hist_irreg_bin_2d(p, *bins, weights=w)
        h, err = app.attempt(f)
        ev.append({"op": "raw", "b": b, "pts": o["pts"], "w": o["w"], "err": err,
                   "h": [] if err else app.ints(np.asarray(h).ravel() * 4)})
    return {"cfg": 0, "events": ev}


def run(sc):
    if "bad" in sc:
        return run_bad(sc)
    if "raw" in sc:
        return run_raw(sc)
    return run_hist(sc)


# ---- scenario construction ------------------------------------------------------------------
def raw_scenarios(rng, n):
    out = []
    shapes = [(2, 2), (3, 2), (4, 3), (1, 1)]
    for k in range(n):
        kind = rng.choice(["irreg", "irreg", "mesh"])
        nx, ny = rng.choice(shapes)
        d = rng.choice([1, 2])
        den = [rng.choice([1, 1, 2, 4]), rng.choice([1, 2])]
        edges = lambda m: sorted(rng.sample(range(0, 24), m + 1))
        y = [] if d == 1 else [edges(ny) for _ in range(nx if kind == "irreg" else 1)]
        np_ = rng.choice([1, 7, 20])
        ops = []
        for via in rng.sample(["component", "direct"], rng.choice([1, 2])):
            b = {"kind": kind, "den": den, "x": edges(nx), "y": y}
            pts = [[rng.randint(-2, 26) for _ in range(d)] for _ in range(np_)]
            for p in pts:
                # exactly on an edge, in either coordinate
                if rng.random() < 0.5:
                    p[0] = (rng.choice(b["x"]) // den[0])
                if d == 2 and rng.random() < 0.5:
                    p[1] = (rng.choice(rng.choice(y)) // den[1])
            ops.append({"b": b, "pts": pts, "w": [rng.randint(0, 6) for _ in pts], "via": via})
        out.append({"raw": ops})
    return out


def expand(g, rng, ops=("hist", "weighted"), nops=4, noeff=0.0):
    g = copy.deepcopy(g)
    c = g["cfg"]
    g["ops"] = g["ops"][:nops]
    for o in g["ops"]:
        o["op"] = rng.choice(list(ops))
        sim = [i for i, k in enumerate(c["comps"]) if not k["fixed"]]
        if sim and rng.random() < noeff:
            o["noeff"] = rng.choice(sim) + 1
    c["data"] = c["data"] or []
    c["extra"] = c["extra"] or []
    if not c["data"] + c["extra"]:
        c["extra"] = [[60] * c["dim"]]
    c["as_str"] = c["dim"] == 1 and rng.random() < 0.5
    # the order of rows in the file is arbitrary
    rng.shuffle(c["data"])
    return g
