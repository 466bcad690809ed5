"""W01: the deduced workflow is complete, minimal, duplicate-free and in dependency order."""
from wflib import setup, run_workflow  # noqa: F401
import wflib

LEVEL = "model_checking"
RULE = ("plugin systems generated by TLC from spec/Gen_Workflow.tla (up to 8 plugins, 7 data "
        "names, overridden providers, missing providers, efficiency anywhere in the request), "
        "every system of two plugins over a small universe, wide/deep ladders and the shipped "
        "components; non-trivial: distinct accepted traces")
ASSUMPTIONS = ["acyclic dependency graphs", "plugin class names are distinct",
               "TLC and the CommunityModules evaluate the specification correctly"]


def run(sc):
    if sc.get("kind") == "shipped":
        return run_shipped(sc)
    return run_workflow(sc, simulate=False)


def run_shipped(sc):
    app, apt = wflib.app, wflib.apt
    app.reset()
    base = getattr(apt.components, sc["component"])
    log = []

    class Rec(base):
        def register(self, plugin_class):
            if isinstance(plugin_class, type):
                log.append(plugin_class)
            return super().register(plugin_class)

    comp = Rec(name="c", llh_name="l")
    ev = []
    names = {}
    for i, c in enumerate(log):
        prov = [c.provides] if isinstance(c.provides, str) else list(c.provides)
        # a class may be registered more than once: the last registration counts
        n = f"{c.__name__}#{i}"
        names[c.__name__] = n
        ev.append({"op": "register",
                   "plugin": {"name": n, "prov": prov, "dep": list(c.depends_on)}})
    req = sc["req"]
    _, err = app.attempt(comp.deduce, data_names=list(req), func_name="f",
                         force_no_eff=sc["noeff"])
    plan = []
    if not err:
        plan = [{"name": names.get(w[0], "?"), "prov": list(w[1]), "dep": list(w[2])}
                for w in comp.worksheet]
    ev.append({"op": "deduce", "req": list(req), "noeff": sc["noeff"], "err": err, "plan": plan})
    return {"events": ev}


SHIPPED = ["ERBand", "ERPeak", "ERBandNestV2", "ERPeakNestV2", "NR", "MonoEnergiesYields",
           "BandEnergiesYields"]


def ladder(n, width):
    """layer k depends on all data of layer k-1"""
    reg = []
    for k in range(n):
        prov = [f"x{k}_{j}" for j in range(width)]
        for j, p in enumerate(prov):
            dep = ["batch_size"] if k == 0 else [f"x{k-1}_{i}" for i in range(width)]
            reg.append({"name": f"L{k}_{j}", "prov": [p], "dep": dep, "c": [k + j], "par": "",
                        "rng": bool(j % 2)})
    reg.append({"name": "E", "prov": ["eff"], "dep": ["x0_0"], "c": [1], "par": "", "rng": False})
    return {"reg": reg, "req": [f"x{n-1}_0", f"x{n-1}_{width-1}"] if width > 1 else
            [f"x{n-1}_0"], "noeff": False}


def scenarios(c):
    out = []
    for s in c.gen("Gen_Workflow", num=c.pick(2500, 20000), depth=30):
        s["kind"] = "gen"
        s["tuple"] = c.rng.random() < 0.3
        s["relist"] = c.rng.random() < 0.2
        # rename data and plugins so that nothing depends on their alphabetical order
        nd = {f"d{i}": x for i, x in zip(range(1, 7), c.rng.sample(
            ["cs1", "cs2", "energy", "aa", "zz", "k_9"], 6))}
        ren = lambda d: nd.get(d, d)
        np_ = [f"P{x}" for x in c.rng.sample(range(10, 99), len(s["reg"]))]
        for p, n in zip(s["reg"], np_):
            p["name"] = n
            p["prov"] = [ren(d) for d in p["prov"]]
            p["dep"] = [ren(d) for d in p["dep"]]
        s["req"] = [ren(d) for d in s["req"]]
        out.append(s)
    for n, w in [(1, 1), (2, 2), (6, 1), (12, 1), (4, 2), (3, 3), (6, 2), (4, 3)]:
        s = ladder(n, w)
        s["kind"] = "ladder"
        out.append(s)
    for comp in SHIPPED:
        outs = [["cs1", "cs2"], ["cs2", "cs1", "eff"], ["eff", "s1_area", "energy"],
                ["energy", "x", "y", "z"], ["charge_yield", "light_yield"],
                ["energies", "charge_yield"], ["num_photon", "num_electron"],
                ["cs1", "no_such_data"]]
        for req in outs:
            for noeff in (False, True):
                out.append({"kind": "shipped", "component": comp, "req": req, "noeff": noeff})
    return out


def check(c):
    c.mc_bg("MC_Workflow", c.pick("MC_Workflow", "MC_Workflow_T"), workers=4, timeout=3000)
    c.run_all("Trace_Workflow", scenarios(c))
