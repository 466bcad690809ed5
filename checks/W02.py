"""W02: provenance of simulated quantities."""
import wflib
from wflib import setup  # noqa: F401

LEVEL = "model_checking"
RULE = ("plugin systems generated by TLC (overridden/shadowed providers, shared plugins, requests "
        "in any order) compiled and executed; integer outputs encode provider, output slot, "
        "ordered inputs, parameter and event; non-trivial: distinct accepted traces whose "
        "simulation succeeded")
ASSUMPTIONS = ["test plugins do exact int32 arithmetic modulo 997", "acyclic dependency graphs",
               "plugin class names are distinct"]


def run(sc):
    return wflib.run_workflow(sc)


def scenarios(c):
    out = []
    for s in c.gen("Gen_Workflow", num=c.pick(700, 5000), depth=30):
        # only executable systems are interesting here; independent of random keys
        for p in s["reg"]:
            p["rng"] = False
        if not executable(s):
            continue
        nd = {f"d{i}": x for i, x in zip(range(1, 7), c.rng.sample(
            ["cs1", "cs2", "energy", "aa", "zz", "k_9"], 6))}
        for p in s["reg"]:
            p["prov"] = [nd.get(d, d) for d in p["prov"]]
            p["dep"] = [nd.get(d, d) for d in p["dep"]]
        s["req"] = [nd.get(d, d) for d in s["req"]]
        s["runs"] = []
        s["observe_pars"] = True
        for times, apply in ((1, False), (c.rng.choice([1, 2, 3]), c.rng.random() < 0.7)):
            s["runs"].append({"batch": c.rng.choice([1, 2, 3, 5, 8]), "key": [1, 2],
                              "pars": {"p": c.rng.randint(0, 300), "q": c.rng.randint(0, 300)},
                              "times": times, "apply": apply})
        out.append(s)
    return out[:c.pick(230, 2000)]


def executable(s):
    prov = {}
    for p in s["reg"]:
        for d in p["prov"]:
            prov[d] = p
    need, seen = [d for d in s["req"] if d != "eff"] + ([] if s["noeff"] else ["eff"]), set()
    while need:
        d = need.pop()
        if d == "batch_size" or d in seen:
            continue
        seen.add(d)
        if d not in prov:
            return False
        need += prov[d]["dep"]
    return True


def check(c):
    c.mc_bg("MC_Workflow", "MC_Workflow", workers=2, timeout=3000)
    c.run_all("Trace_Workflow", scenarios(c))
