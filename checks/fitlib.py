"""Driver for fits (spec/Fit.tla): contexts with stub likelihoods, real sampler and backend."""
import copy
import hashlib
import json
import os
import shutil
import types

from parlib import config


def setup():
    global app, jnp, np, apt, jax, h5py
    import app
    from app import jnp, np, apt, jax
    import h5py


class VfFail(Exception):
    pass


_n = [0]


def tok(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]


def units(v):
    return round(float(v) * 1e4)


class World:
    """One scenario: a component class, a parameter configuration, an instruct."""

    def __init__(self, w):
        _n[0] += 1
        self.w = w
        self.dir = os.path.join(app.SCRATCH, f"fit{_n[0]}")
        os.makedirs(self.dir)
        tag = f"Fit{_n[0]}"

        def body(self, key, parameters, b):
            k2, seed = jax.random.split(key)
            u = jax.random.uniform(seed, (b,))
            one = jnp.ones(b)
            return (k2, one * parameters["pa"], one * parameters["pb"],
                    u + parameters["pc"] + parameters["pd"], one * self.vf_fc.value + 0.4 * u)
        pl = app.make_plugin(tag + "P", ["d1", "d2", "d3", "eff"], ["batch_size"], body,
                             ("pa", "pb", "pc", "pd"))
        pl = apt.takes_config(apt.Constant(name="vf_fc", type=int, default=77, help="h"))(pl)
        app.publish(pl)

        def init(self, *a, **k):
            apt.ComponentSim.__init__(self, *a, **k)
            self.register(pl)
        cl = type(tag + "C", (apt.ComponentSim,), {"norm_type": "on_pdf", "__init__": init})
        mod = types.ModuleType("vffit" + tag)
        setattr(mod, cl.__name__, cl)
        with app.quiet():
            apt.add_component_extensions(apt.components, mod, force=True)
        self.pa = "qa" if w["alias"] else "pa"
        free = {"t": "free", "lo": 0, "hi": 10, "im": 5, "is": 1}
        kinds = {"free": free, "uniform": dict(free, t="uniform", a=0, b=10)}
        cfg, self.fixed = {}, {}
        given = {}
        for i, n in enumerate(("pa", "pb", "pc", "pd", "rate")):
            t = w["cfg"][n]
            c = {"t": "fixed", "a": i + 2} if t == "fixed" else kinds[t]
            name = {"pa": self.pa, "rate": "vc_rate"}.get(n, n)
            cfg[name] = c
            if t == "fixed":
                self.fixed[name] = units(i + 2)
            given["rate" if n == "rate" and w["copy"] else name] = c
        self.names = sorted(n for n in cfg if cfg[n]["t"] != "fixed")
        self.given = config(given)
        used = {n: (self.given["rate"] if n == "vc_rate" and w["copy"] else self.given[n])
                for n in cfg}
        data = os.path.join(self.dir, "data.csv")
        with open(data, "w") as f:
            f.write("d1,d2\n5,5\n4,4\n")
        llh = {"components": {"vc": cl.__name__},
               "copy_parameters": {"vc_rate": "rate"} if w["copy"] else {},
               "data_file_name": data, "bins_type": "irreg", "bins_on": ["d1", "d2"],
               "bins": [[-1, 100], [[-1, 100]]], "x_clip": [-1, 100], "y_clip": [-1, 100]}
        if w["alias"]:
            llh["parameter_alias"] = {"qa": "pa"}
        self.instruct = {"likelihoods": {"l1": llh}, "configs": {"vf_fc": w["fc"]}}
        self.parfile = os.path.join(self.dir, "par.json")
        json.dump(self.given, open(self.parfile, "w"))
        self.used = used
        # the log posterior: a function of the point, fixed at its first evaluation
        self.memo, self.calls, self.batches = {}, [], []
        self.mode, self.fail, self.count, self.hit = "free", 0, 0, False
        self.points, self.vectors = {}, []
        self.lin = None

    def path(self, f):
        return os.path.join(self.dir, f + ".h5")

    def lp(self, key, vec):
        if key not in self.memo:
            self.memo[key] = (-0.5 * float(np.sum((np.array(vec) - 5.0) ** 2))
                              if self.mode == "free" else -1e6 * (1 + len(self.memo)))
        return self.memo[key]

    def point(self, vec):
        """Number of an evaluated point, 0 if it never was evaluated."""
        return self.points.get(np.asarray(vec, dtype=float).tobytes(), 0)

    def stub(self, ctx):
        def get_log_likelihood(key, batch_size, parameters):
            if sorted(parameters) != sorted([*self.names, *self.fixed]) or \
                    any(units(parameters[k]) != v for k, v in self.fixed.items()):
                raise ValueError(f"table {parameters}")
            vec = np.array([float(parameters[n]) for n in self.names])
            self.count += 1
            if self.fail and self.count == self.fail:
                self.hit = True
                raise VfFail()
            b = vec.tobytes()
            v = self.lp(b, vec)
            if b not in self.points:
                self.points[b] = len(self.points) + 1
                self.vectors.append(vec)
            self.calls.append(self.points[b])
            self.batches.append(int(batch_size))
            return key, v
        ctx.likelihoods["l1"].get_log_likelihood = get_log_likelihood

    def context(self, f):
        apt.clear_cache()
        ins = copy.deepcopy(self.instruct)
        if f:
            ins["backend_h5"] = self.path(f)
        how = self.w["how"]
        args = (ins,)
        par = copy.deepcopy(self.given)
        if how == "dict":
            ins["par_config"] = par
        elif how == "file":
            ins["par_config"] = self.parfile
        else:
            ins["par_config"] = {"nonsense": {}}
            args = (ins, par)
        before = tok([ins, par])
        ctx = apt.Context(*args)
        self.stub(ctx)
        self.pristine = tok([ins, par]) == before
        full = dict(ins)
        if how == "explicit":
            full["par_config"] = par
        self.full = full
        return ctx

    def columns(self, ctx):
        pn = ctx.sampler.parameter_names
        return [pn[n] for n in self.names] if sorted(pn) == self.names else None

    def rows(self, ctx):
        try:
            chain = np.asarray(ctx.get_all_post_parameters())
            lps = np.asarray(ctx.sampler.get_log_prob())
        except AttributeError:
            return [], []
        col = self.columns(ctx)
        if col is None:
            return [[0]], [[0]]
        return ([[self.point(v[col]) for v in row] for row in chain],
                [[float(x) for x in row] for row in lps])

    def file_rows(self, f, ctx):
        p = self.path(f)
        if not os.path.exists(p):
            return []
        with h5py.File(p, "r") as h:
            g = h["mcmc"]
            k = int(g.attrs["iteration"])
            chain = np.asarray(g["chain"])[:k]
        col = self.columns(ctx)
        return [[self.point(v[col]) for v in row] for row in chain] if col else [[0]]

    def table(self, d):
        return {k: units(v) for k, v in d.items()}


def digest(path):
    return hashlib.sha1(open(path, "rb").read()).hexdigest() if os.path.exists(path) else ""


def run(sc):
    app.reset()
    w = World(sc["world"])
    np.random.seed(int(tok(sc), 16) % 2**31)
    try:
        return steps(w, sc)
    finally:
        shutil.rmtree(w.dir)


def steps(w, sc):
    ctxs, fof, ev = {}, {}, []
    lin = None
    for o in sc["ops"]:
        e = dict(o)
        op = o["op"]
        ctx = ctxs.get(o.get("c"))
        w.calls, w.batches, w.count, w.hit = [], [], 0, False
        w.mode, w.fail = o.get("mode", "free"), o.get("fail", 0)
        if ctx is None and op not in ("new", "reload") or \
                op == "cont" and (o["src"] not in ctxs or not hasattr(ctxs[o["src"]], "sampler")):
            ev.append({"op": "crash", "err": "context not available"})
            break
        if op == "new":
            ctx, e["err"] = app.attempt(w.context, o["f"])
            ctxs[o["c"]], fof[o["c"]] = ctx, o["f"]
            e["pristine"] = not e["err"] and w.pristine
            if ctx is not None:
                lin = lin or lineage(ctx)
        elif op in ("fit", "cont"):
            kw = {"iteration": o["it"], "batch_size": o["batch"]}
            if o["rep"] > 1:
                kw["repeat_times"] = o["rep"]
            if op == "fit":
                f = lambda: ctx.fitting(nwalkers=o["nw"], **kw)
            elif o["src"] == o["c"] and o["none"]:
                f = lambda: ctx.continue_fitting(**kw)
            else:
                f = lambda: ctx.continue_fitting(ctxs[o["src"]], **kw)
            _, e["err"] = app.attempt(f)
            w.fail = 0
            e.update(hit=w.hit, calls=list(w.calls), batches=sorted(set(w.batches)))
            e["rows"], e["lps"] = w.rows(ctx) if hasattr(ctx, "sampler") else ([], [])
            e["file"] = bool(fof[o["c"]])
            e["frows"] = w.file_rows(fof[o["c"]], ctx) if e["file"] else []
        elif op == "reload":
            f, g = fof[o["src"]], o["g"]
            e["f"] = f
            if g != f:
                shutil.copy(w.path(f), w.path(g))
            apt.clear_cache()
            before = digest(w.path(f)), digest(w.path(g))
            ctx, e["err"] = app.attempt(apt.Context.from_backend, w.path(g))
            e.update(rows=[], batches=[], names=[], lineage="")
            if not e["err"]:
                w.stub(ctx)
                e["rows"], _ = w.rows(ctx)
                e["names"] = sorted(ctx.par_manager.parameter_fit)
                e["lineage"] = lineage(ctx)
                last = ctx.sampler.get_chain()[-1]
                _, err = app.attempt(ctx.sampler.compute_log_prob, last)
                e["batches"] = sorted(set(w.batches)) if not err else ["refused"]
            e["untouched"] = before == (digest(w.path(f)), digest(w.path(g)))
            ctxs[o["c"]], fof[o["c"]] = ctx, g
        elif op == "post":
            r, e["err"] = app.attempt(ctx.get_post_parameters, o["which"])
            if o["which"] == "mpe" and len(ev) % 2:
                r, e["err"] = app.attempt(ctx.get_post_parameters)
            e["par"] = w.table(r) if not e["err"] else {}
        elif op == "dump":
            e["which"] = "mpe"
            p = os.path.join(w.dir, "post.json")
            _, e["err"] = app.attempt(ctx.dump_post_parameters, p)
            e["par"] = w.table(json.load(open(p))) if not e["err"] else {}
        elif op == "meta":
            def f():
                with h5py.File(w.path(fof[o["c"]]), "r") as h:
                    a = h["mcmc"].attrs
                    ins = json.loads(a["instruct"])
                    ins.pop("backend_h5", None)
                    cols = list(a["parameter_fit"])
                    return dict(instruct=tok(ins), parconf=tok(json.loads(a["par_config"])),
                                config=tok(json.loads(a["config"])), batch=int(a["batch_size"]),
                                order=[str(c) for c in cols],
                                par=w.table(json.loads(a["post_parameters"])))
            r, e["err"] = app.attempt(f)
            e.update(r or {})
        elif op == "all":
            kw = {k: v for k, v in (("flat", o["flat"]), ("discard", o["d"]), ("thin", o["t"])) if v}
            r, e["err"] = app.attempt(ctx.get_all_post_parameters, **kw)
            col = w.columns(ctx)
            if not e["err"] and col is not None:
                r = np.asarray(r)
                e["got"] = [w.point(v[col]) for v in r] if o["flat"] else \
                    [[w.point(v[col]) for v in row] for row in r]
            else:
                e["got"] = []
        elif op == "template":
            f = lambda: ctx.get_template("l1", "vc", batch_size=o["batch"], seed=o["seed"])
            r, e["err"] = app.attempt(f)
            if not e["err"]:
                r2, _ = app.attempt(f)
                e["again"] = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(r, r2))
                r3, _ = app.attempt(ctx.get_template, "l1", "vc", batch_size=o["batch"],
                                    seed=o["seed"] + 1)
                e["other"] = not np.array_equal(np.asarray(r[-1]), np.asarray(r3[-1]))
                e["n"] = len(np.asarray(r[0]))
                one = lambda a: units(np.asarray(a)[0]) if len(set(np.asarray(a).tolist())) == 1 else -1
                e["vals"] = {w.pa: one(r[0]), "pb": one(r[1])}
                e["fc"] = round(float(np.asarray(r[-1])[0]))
        ev.append(e)
    lps = [w.memo[v.tobytes()] for v in w.vectors]
    rank = {x: i + 1 for i, x in enumerate(sorted(set(lps)))}
    for e in ev:
        if "lps" in e:
            e["lps"] = [[rank.get(x, -1) for x in row] for row in e["lps"]]
    ins = dict(w.full)
    ins.pop("backend_h5", None)
    used = copy.deepcopy(w.used)
    return {"names": w.names, "fixed": w.fixed, "pos": [[units(x) for x in v] for v in w.vectors],
            "lp": [rank[x] for x in lps], "events": ev,
            "tok": {"instruct": tok(ins), "parconf": tok(used), "config": tok(w.full["configs"]),
                    "fc": w.w["fc"], "lineage": lin}}


def lineage(ctx):
    d = dict(ctx.lineage)
    d.pop("backend_h5", None)
    return hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
