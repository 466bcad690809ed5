"""X02: what may be registered, and what is refused."""
import os
import types

LEVEL = "model_checking"
RULE = ("sequences of 30 operations (extend the plugins or components with a module or a class, forced or "
        "not; register plugins with options in a component; declare options; create plugins, options and "
        "components) generated by TLC from spec/MC_Guards.tla; non-trivial: distinct accepted sequences")
ASSUMPTIONS = ["modules have simple names",
               "after a refused registration the component is abandoned",
               "TLC and the CommunityModules evaluate the specification correctly"]
NAMES = ("Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh")
MODS = ("vm1", "vm2", "vm3", "vm4")


def setup():
    global app, jnp, np, apt
    import app
    from app import jnp, np, apt


_n = [0]


def make_class(c, ident):
    ns = {"vf_id": ident}
    if c["k"] == "other":
        return type(c["n"], (), ns)
    base = apt.Plugin if c["k"] in ("plugin", "base") else apt.Component
    if c["k"] == "base":
        ns[f"_{c['n']}__is_base"] = True
    return type(c["n"], (base,), ns)


def visible(target, mods):
    out = {}
    for n in NAMES:
        if hasattr(target, n):
            out[n] = getattr(target, n).vf_id
    for n in MODS:
        if hasattr(target, n):
            out[n] = getattr(target, n).vf_id
    return out


class Comp:
    def __init__(self):
        class C(apt.ComponentSim):
            norm_type = "on_pdf"
        _n[0] += 1
        self.c = C(name=f"g{_n[0]}", llh_name="lg")
        self.names = set()


def new_plugin(o, ident):
    names = sorted(o["prov"])

    def body(self, key, parameters, b):
        return (key, *[jnp.full(b, float(ident)) for _ in names])
    _n[0] += 1
    pl = app.make_plugin(f"G{_n[0]}", names, ["batch_size"], body)
    opts = o["opts"] or {}
    if opts:
        pl = apt.takes_config(*[apt.Constant(name=k, type=int, default=v, help="h")
                                for k, v in sorted(opts.items())])(pl)
    app.publish(pl)
    return pl


def providers(comp):
    apt.clear_cache()
    if not comp.names:
        return {}
    names = sorted(comp.names)
    comp.c.deduce(data_names=list(names), func_name=f"f{_n[0]}", force_no_eff=True)
    comp.c.compile()
    _, r = comp.c.simulate(apt.randgen.get_key(seed=1), 1, {})
    return {d: app.ints(a)[0] for d, a in zip(names, r)}


def takes(o):
    def one(n):
        return "nonsense" if n == "nonsense" else apt.Constant(name=n, type=int, default=1, help="h")
    _n[0] += 1
    pl = app.make_plugin(f"G{_n[0]}", ["dx"], ["batch_size"], lambda self, k, p, b: (k, jnp.ones(b)))
    for i, l in enumerate(o["layers"]):
        if i and o["sub"]:
            pl = type(f"G{_n[0]}s{i}", (pl,), {})
        pl = apt.takes_config(*[one(n) for n in l])(pl)
    apt.clear_cache()
    inst = pl()
    return sorted(n for n in inst.takes_config if getattr(inst, n).value == 1)


def plug(o):
    _n[0] += 1
    ns = {}
    exec(f"def simulate(self, {', '.join(o['args'])}):\n    pass\n", ns)
    type(f"G{_n[0]}", (apt.Plugin,), {"depends_on": list(o["deps"]), "provides": list(o["prov"]),
                                      "simulate": ns["simulate"]})()


def component(o):
    kw = {}
    if o["fixed"] and o["file"]:
        f = os.path.join(app.SCRATCH, "g.csv")
        open(f, "w").write("cs1,cs2\n1,1\n")
        kw["file_name"] = f
    bt = None if o["bt"] == "none" else o["bt"]
    cl = type("GC", (apt.ComponentFixed if o["fixed"] else apt.ComponentSim,), {"norm_type": "on_pdf"})
    if _n[0] % 2:
        cl(bins=[[0, 1], [0, 1]], bins_type=bt, **kw)
    else:
        cl(**kw).set_binning(bins=[[0, 1], [0, 1]], bins_type=bt)


def run(sc):
    app.reset()
    targets = {"plugin": types.ModuleType("vfp"), "component": types.ModuleType("vfc")}
    comp, ev = Comp(), []
    for i, o in enumerate(sc):
        e = dict(o)
        if o["op"] in ("ext", "one"):
            t = targets[o["base"]]
            cls = [dict(c, id=100 * (i + 1) + j) for j, c in enumerate(o["cls"])]
            made = [make_class(c, c["id"]) for c in cls]
            e["cls"], e["mid"] = cls, 100 * (i + 1) + 99
            if o["op"] == "ext":
                m = types.ModuleType(o["m"])
                m.vf_id = e["mid"]
                m.vf_value = 5
                for x in made:
                    setattr(m, x.__name__, x)
                f = apt.add_plugin_extensions if o["base"] == "plugin" else apt.add_component_extensions
                _, e["err"] = app.attempt(f, t, m, force=o["force"])
            else:
                from appletree import component as ac, plugin as ap
                f = ap._add_plugin_extension if o["base"] == "plugin" else ac._add_component_extension
                _, e["err"] = app.attempt(f, t, made[0], force=o["force"])
            e["after"] = visible(t, MODS)
        elif o["op"] == "register":
            pl = new_plugin(o, i + 1)
            e["id"] = i + 1
            _, e["err"] = app.attempt(comp.c.register, [pl] if o["list"] else pl)
            comp.names |= set(o["prov"])
            if e["err"]:
                comp = Comp()
        elif o["op"] == "providers":
            e["got"], e["err"] = app.attempt(providers, comp)
            e["got"] = e["got"] or {}
        elif o["op"] == "takes":
            e["got"], e["err"] = app.attempt(takes, o)
            e["got"] = e["got"] or []
        elif o["op"] == "plug":
            _, e["err"] = app.attempt(plug, o)
        elif o["op"] == "default":
            d = {"l1": 5} if o["dict"] else ("f.json" if o["cls"] != "Constant" else 5)
            _, e["err"] = app.attempt(getattr(apt, o["cls"]), name="o", default=d)
        elif o["op"] == "comp":
            _, e["err"] = app.attempt(component, o)
        ev.append(e)
    return {"events": ev}


def check(c):
    c.mc_bg("MC_Guards", c.pick("MC_Guards", "MC_Guards_T"), workers=4, timeout=3000)
    c.run_all("Trace_Guards", c.gen("MC_Guards", "Gen_Guards", num=c.pick(80, 1500), depth=32))
