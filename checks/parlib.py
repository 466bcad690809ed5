"""Driver for parameter-manager scenarios."""
import copy
import json
import os


def setup():
    global app, np, apt
    import app
    from app import np, apt


def config(cfg):
    out = {}
    for n, c in cfg.items():
        t = c["t"]
        args = {"fixed": lambda: {"val": c["a"]},
                "norm": lambda: {"mean": c["a"], "std": c["b"]},
                "uniform": lambda: {"lower": c["a"], "upper": c["b"]},
                "twohalfnorm": lambda: {"mu": c["a"], "sigma_pos": c["p"], "sigma_neg": c["n"]},
                "free": lambda: {}}[t]()
        d = {"prior_type": t, "prior_args": args}
        if t != "fixed" or "lo" in c:
            d.update(allowed_range=[c["lo"], c["hi"]], init_mean=c["im"], init_std=c["is"])
        else:
            d.update(allowed_range=None, init_mean=None, init_std=None, unit="u")
        d["doc"] = n
        out[n] = d
    return out


def micro(v):
    v = float(v)
    if v != v:
        return "nan"
    if abs(v) > 2000:
        return "big"
    return round(v * 1e6)


def run_param(sc):
    app.reset()
    cfg = sc["cfg"]
    conf = config(cfg)
    np.random.seed(sc["seed"])
    if sc.get("file"):
        f = os.path.join(app.SCRATCH, "par.json")
        json.dump(conf, open(f, "w"))
        par = apt.Parameter(f)
    else:
        par = apt.Parameter(conf)
        # the manager owns its configuration
        for v in conf.values():
            v["prior_args"].clear()
            v["allowed_range"] = [0, 0]
    tab = lambda: {k: micro(v) for k, v in par.get_all_parameter().items()}
    all0 = tab()
    ev = [{"op": "start", "all": all0}]
    for i, o in enumerate(sc["ops"]):
        e = dict(o)
        op = o["op"]
        if op == "set":
            if o["kind"] == "one":
                v = o["vals"][0] if o["num"] else "text"
                if o["num"] and i % 2:
                    v = float(v)
                _, e["err"] = app.attempt(par.set_parameter, o["keys"][0], v)
            else:
                _, e["err"] = app.attempt(par.set_parameter, list(o["keys"]),
                                          np.array(o["vals"]) if i % 2 else o["vals"])
        elif op == "setmap":
            e["m"] = m = o["m"] or {}
            _, e["err"] = app.attempt(par.set_parameter, dict(m))
        elif op == "get":
            k = o["keys"]
            f = par.get_parameter
            if len(k) == 1 and i % 2:
                r, e["err"] = app.attempt(f, k[0])
                r = [r]
            elif i % 3 == 0 and len(k) == 1:
                r, e["err"] = app.attempt(f, set(k))
            else:
                r, e["err"] = app.attempt(f, list(k))
            e["val"] = [] if e["err"] else [micro(x) for x in r]
        elif op == "exist":
            k = o["keys"]
            if len(k) == 1 and i % 2:
                r = par.check_parameter_exist(k[0])
                e["missing"] = [] if r else [k[0]]
            else:
                kk = {x: 0 for x in k} if i % 3 == 0 else list(k)
                r, e["missing"] = par.check_parameter_exist(kk, return_not_exist=True)
                e["missing"] = list(e["missing"])
                assert par.check_parameter_exist(kk) == r
            e["val"] = bool(r)
        elif op == "fit":
            e["names"] = list(par.parameter_fit)
            e["val"] = [micro(x) for x in par.parameter_fit_array]
        elif op == "sample":
            _, e["err"] = app.attempt(par.sample_prior)
        elif op == "sample_init":
            _, e["err"] = app.attempt(par.sample_init)
        elif op == "reinit":
            _, e["err"] = app.attempt(par.init_parameter, seed=o["seed"])
            first = tab()
            par.sample_prior()
            par.init_parameter(seed=o["seed"])
            e["again"] = first
        elif op == "logprior":
            lp, err = app.attempt(lambda: float(par.log_prior))
            if err:
                raise RuntimeError("log_prior raised " + err)
            e["fin"] = bool(np.isfinite(lp))
            e["lp"] = micro(lp) if e["fin"] else str(lp)
            if not e["fin"] and lp != -np.inf:
                e["fin"] = "neither"
        elif op == "stat":
            draws = {n: [] for n, c in cfg.items() if c["t"] != "fixed"}
            for _ in range(o["n"]):
                (par.sample_prior if o["how"] == "prior" else par.sample_init)()
                for n in draws:
                    draws[n].append(micro(par.get_parameter(n)))
            e["draws"] = draws
        elif op == "edgestat":
            e["draws"] = []
            for _ in range(o["n"]):
                par.sample_prior()
                e["draws"].append(micro(par.get_parameter(o["name"])))
        if op != "edgestat":
            e["all"] = tab()
        else:
            ev.append(e)
            ev.append({"op": "sample", "err": app.attempt(par.sample_prior)[1], "all": tab()})
            continue
        ev.append(e)
    return {"cfg": cfg, "order": sorted(cfg), "all0": all0, "events": ev}


def expand(s, rng, logprior=True, table=True):
    """Turn a generated behaviour into a scenario."""
    ops = []
    cfg = s["cfg"]
    zero = any(c["t"] == "norm" and c["b"] == 0 for c in cfg.values())
    for o in s["ops"]:
        if o["op"] == "edge":
            c = cfg[o["key"]]
            if "lo" not in c:
                continue
            v = [c["lo"] - 1, c["lo"], c["hi"], c["hi"] + 1][o["which"] - 1]
            ops.append({"op": "set", "kind": "one", "keys": [o["key"]], "vals": [v], "num": True})
            o = {"op": "logprior"}
        if o["op"] == "logprior" and zero:
            continue
        ops.append(o)
    return {"cfg": cfg, "ops": ops, "seed": rng.randrange(1, 10**6), "file": rng.random() < 0.3}
