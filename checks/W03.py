"""W03: random keys are threaded linearly."""
import wflib
from W02 import executable
from wflib import setup  # noqa: F401

LEVEL = "model_checking"
RULE = ("plugin systems generated by TLC whose plugins fold their identity into the key; single, "
        "repeated and filtered simulations; likelihoods of several simulated/fixed components; "
        "shipped components with real keys")
ASSUMPTIONS = ["the key fold of the test plugins is not commutative, so that the final key "
               "determines the order and multiplicity of key consumers", "acyclic graphs"]


def run(sc):
    return {"multi": wflib.run_workflow, "llh": wflib.run_llh_keys,
            "real": wflib.run_real_keys}[sc["kind"]](sc)


def scenarios(c):
    out = []
    systems = [s for s in c.gen("Gen_Workflow", num=c.pick(900, 6000), depth=30) if executable(s)]
    key = lambda: [c.rng.randint(0, 900), c.rng.randint(0, 900)]
    pars = lambda: {"p": c.rng.randint(0, 300), "q": c.rng.randint(0, 300)}
    for n, s in enumerate(systems[:c.pick(130, 1200)]):
        s["kind"] = "multi"
        s["runs"] = [{"batch": c.rng.choice([1, 2, 4]), "key": key(), "pars": pars(), "times": t,
                      "apply": a}
                     for t, a in [(1, False), (3, False), (2, True), (1, True)]]
        out.append(s)
    # components for likelihoods: must provide d1, d2, eff
    full = []
    for s in systems:
        t = {"reg": s["reg"], "req": ["d1", "d2"], "noeff": False}
        if executable(t) and any(p["rng"] for p in s["reg"]):
            full.append(s["reg"])
    for n in range(c.pick(14, 150)):
        k = c.rng.choice([1, 2, 2, 3])
        comps = [{"name": nm, "fixed": False, "reg": c.rng.choice(full)}
                 for nm in c.rng.sample(["er", "nr", "ac", "wall"], k)]
        if c.rng.random() < 0.5:
            comps.insert(c.rng.randrange(k + 1), {"name": "fx", "fixed": True, "reg": []})
        out.append({"kind": "llh", "comps": comps, "pars": pars(), "batch": c.rng.choice([3, 8]),
                    "keys": [key(), key()]})
    real = [("ERBand", "er.json", ["cs1", "cs2"]), ("NR", "nr_low.json", ["cs2", "cs1"])]
    if c.thorough:
        real += [("ERPeak", "er.json", ["cs1", "cs2"]),
                 ("ERBandNestV2", "er_nestv2.json", ["cs1", "cs2"])]
    for comp, pf, data in real:
        out.insert(0, {"kind": "real", "component": comp, "par_file": pf, "data": data,
                       "seed": c.seed, "batch": 200})
    return out


def check(c):
    c.mc_bg("MC_Workflow", "MC_Workflow", workers=2, timeout=3000)
    c.run_all("Trace_Workflow", scenarios(c))
