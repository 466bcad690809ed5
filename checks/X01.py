"""X01: lineage."""
import copy
import json
import os
import subprocess
import sys
import types

LEVEL = "model_checking"
RULE = ("sequences of 12 contexts that differ from an earlier one in one of 16 ingredients or are built "
        "again (dictionaries in another order, another process), generated by TLC from "
        "spec/MC_Lineage.tla; hashes of the context, likelihoods, components, plugins and options; "
        "non-trivial: distinct accepted sequences")
ASSUMPTIONS = ["hash collisions do not occur",
               "TLC and the CommunityModules evaluate the specification correctly"]
SCENARIO_TIMEOUT = 300


def setup():
    global app, jnp, np, apt, COMP
    import app
    from app import jnp, np, apt, jax

    def body1(self, key, parameters, b):
        k2, seed = jax.random.split(key)
        one = jnp.ones(b)
        v = self.vl_o.value + self.vl_set.value["w"][0] + self.vl_m.apply(one) + \
            self.vl_s.apply(one, parameters)
        return k2, one * v + parameters["vl_pa"]

    def opts():
        return [apt.Constant(name="vl_o", type=int, default=0, help="h"),
                apt.ConstantSet(name="vl_set", default=[["w"], [[0.0, 1.0]]], help="h"),
                apt.Map(name="vl_m", default="vl_m.json", method="LERP", help="h"),
                apt.SigmaMap(name="vl_s", default=["vl_s0.json", "vl_s0.json", "vl_s1.json", "vl_q"],
                             method="LERP", help="h")]
    p1 = apt.takes_config(*opts())(app.make_plugin("VlOne", ["vl1"], ["batch_size"], body1, ("vl_pa",)))
    p2 = app.make_plugin("VlTwo", ["vl2"], ["vl1"], lambda self, k, par, x: (k, x + 1.0))
    p3 = app.make_plugin("VlTwo2", ["vl2"], ["vl1"], lambda self, k, par, x: (k, x + 2.0))
    pe = app.make_plugin("VlEff", ["eff"], ["vl2"], lambda self, k, par, x: (k, jnp.ones(len(x))))
    app.publish(p1, p2, p3, pe)
    classes = []
    for p in (0, 1):
        for n, norm in enumerate(("on_pdf", "on_sim")):
            def init(self, *a, p=p, **k):
                apt.ComponentSim.__init__(self, *a, **k)
                self.register([p1, p2] + [p3] * p + [pe])
            classes.append(type(f"VlComp{p}{n}", (apt.ComponentSim,), {"norm_type": norm, "__init__": init}))
    classes.append(type("VlFixed", (apt.ComponentFixed,), {"norm_type": "on_pdf"}))
    mod = types.ModuleType("vlmod")
    for c in classes:
        setattr(mod, c.__name__, c)
    with app.quiet():
        apt.add_component_extensions(apt.components, mod, force=True)


def write(name, content):
    if os.path.exists(name) and open(name).read() == content:
        return
    open(name, "w").write(content)


def files(v):
    """Large files of the same size, which differ in one byte at the end, in the middle, at the
    beginning."""
    n = 30000
    m = {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 5.0]}
    pad = "0" * 150000
    write("vl_m.json", json.dumps(dict(m, note=pad, map=[1.0, 2.0 + v["m"]])))
    write("vl_s0.json", json.dumps(dict(m, map=[0.0, 1.0])))
    write("vl_s1.json", json.dumps(dict(note=pad, **m, map=[1.0 + v["s"], 3.0], more=pad)))
    write("vl_d1.csv", "vl1,vl2\n" + "1,2\n" * n + f"{1 + v['d']},2\n")
    write("vl_d2.csv", "vl1,vl2\n1,2\n2,2\n")
    write("vl_f.csv", "vl1,vl2\n" + f"1,{3 + v['f']}\n" + "1,3\n" * n)


def shuffled(d):
    """The same dictionaries written down in the opposite order."""
    if isinstance(d, dict):
        return {k: shuffled(x) for k, x in reversed(list(d.items()))}
    return d


def build(v, shuffle):
    cname = f"VlComp{v['p']}{v['n']}"
    comps = {"cc": cname}
    if v["c"]:
        comps["ff"] = {"component_cls": "VlFixed", "file_name": "vl_f.csv"}
    e = [0.0, 2.0, 3.0 + v["b"], 50.0]
    base = {"bins_type": "irreg", "bins_on": ["vl1", "vl2"], "x_clip": [0, 60], "y_clip": [0, 60]}
    l1 = dict(base, components=comps, data_file_name="vl_d1.csv", bins=[e, [[0.0, 9.0, 60.0]] * 3],
              copy_parameters={}, parameter_alias={"vl_qa": "vl_pa"} if v["a"] else {})
    l2 = dict(base, components={"cc": cname}, data_file_name="vl_d2.csv",
              bins=[[0.0, 60.0], [[0.0, 60.0]]], copy_parameters={})
    q = ["vl_q", "vl_r"][v["q"]]
    conf = {"vl_o": v["o1"] if v["o1"] == v["o2"] and not v["form"] else {"l1": v["o1"], "l2": v["o2"]},
            "vl_set": [["w"], [[float(v["set"]), 1.0]]],
            "vl_s": ["vl_s0.json", "vl_s0.json", "vl_s1.json", q], "vl_other": v["x"]}

    def par(val):
        return {"prior_type": "uniform", "prior_args": {"lower": 0, "upper": 10 + val},
                "allowed_range": [0, 10], "init_mean": 5, "init_std": 1, "unit": "1", "doc": "d"}
    names = ["vl_pa", q, "cc_rate"] + ["ff_rate"] * v["c"] + ["vl_qa"] * v["a"]
    pc = {n: par(v["r"] if n == "vl_pa" else 0) for n in names}
    ins = {"likelihoods": {"l1": l1, "l2": l2}, "configs": conf, "par_config": pc}
    if shuffle:
        # (the order of the likelihoods and of their components is part of the definition)
        ins = {"par_config": shuffled(pc), "configs": shuffled(conf),
               "likelihoods": {k: {**shuffled(x), "components": x["components"]}
                               for k, x in (("l1", l1), ("l2", l2))}}
    app.reset()
    files(v)
    return apt.Context(ins)


def levels(ctx, v):
    out = {"ctx": ctx}
    for i in ("1", "2"):
        l = ctx["l" + i]
        out["llh" + i], out["comp" + i] = l, l["cc"]
    if v["c"]:
        out["fixed"] = ctx["l1"]["ff"]
    return out


def hashes(ctx, v):
    with app.quiet():
        out = {k: x.lineage_hash for k, x in levels(ctx, v).items()}
        for i in ("1", "2"):
            pl = [p for p in apt.share._cached_functions["l" + i].values() if hasattr(p, "vl_o")]
            assert len(pl) == 1
            out["inst" + i] = pl[0].lineage_hash
        out["set"], out["map"] = pl[0].vl_set.lineage_hash, pl[0].vl_m.lineage_hash
    return out


def dumped(ctx, v):
    """What dump_lineage writes, the hash of the parsed file."""
    for k, x in levels(ctx, v).items():
        apt.utils.dump_lineage("vl_dump.json", x)
        json.load(open("vl_dump.json"))


def run(sc):
    ev = []
    for i, o in enumerate(sc):
        v = o["v"]
        e = {"op": "build", "v": v, "again": {}}

        def f():
            ctx = build(v, o["shuffle"])
            tok = hashes(ctx, v)
            if o["again"]:
                if i % 2:
                    apt.set_global_config({"vl_o": 17, "vl_other": 5, "vl_set": [["w"], [[9.0]]]})
                dumped(ctx, v)
                e["again"] = hashes(ctx, v)
            return tok
        if os.environ.get("VF_DEBUG"):
            f()
        tok, e["err"] = app.attempt(f)
        e["tok"] = tok or {}
        ev.append(e)
        if o["proc"] and not e["err"]:
            env = dict(os.environ, PYTHONHASHSEED=str(100 + i))
            r = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), json.dumps(v)],
                               env=env, capture_output=True, text=True)
            line = [x for x in r.stdout.splitlines() if x.startswith("TOK")]
            tok = json.loads(line[0][3:]) if line else {}
            ev.append({"op": "build", "v": v, "tok": tok, "again": {}, "err": "" if line else r.stderr[-200:]})
        if e["err"]:
            break
    return {"events": ev}


def check(c):
    c.mc_bg("MC_Lineage", c.pick("MC_Lineage", "MC_Lineage_T"), workers=4, timeout=3000)
    c.run_all("Trace_Lineage", c.gen("MC_Lineage", "Gen_Lineage", num=c.pick(30, 400), depth=14))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
    setup()
    vec = json.loads(sys.argv[1])
    print("TOK" + json.dumps(hashes(build(vec, False), vec)))
