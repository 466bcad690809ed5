"""P04: the log prior."""
from parlib import setup, run_param as run  # noqa: F401
from parlib import expand

LEVEL = "model_checking"
RULE = ("random parameter configurations generated by TLC from spec/MC_Param.tla with the log prior "
        "observed inside, on and outside of the allowed ranges, and a sweep of every prior type over "
        "a grid of values; non-trivial: distinct accepted sessions")
ASSUMPTIONS = ["values compared in units of 1e-6 with integer prior arguments",
               "TLC and the CommunityModules evaluate the specification correctly"]


def sweep(c):
    out = []
    pairs = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 1), (1, 3), (5, 5), (2, 2)]
    kinds = [{"t": "norm", "a": 1, "b": b} for b in (1, 2, 4, 5, 10)]
    kinds += [{"t": "twohalfnorm", "a": -1, "p": p, "n": n} for p, n in pairs]
    kinds += [{"t": "uniform", "a": -2, "b": 2}, {"t": "free"}]
    for k in kinds:
        for lo, hi in ((-4, 5), (0, 0), (2, 7)):
            cfg = {"q": {**k, "lo": lo, "hi": hi, "im": 0, "is": 1},
                   "z": {"t": "fixed", "a": 50},
                   "o": {"t": "norm", "a": 0, "b": 2, "lo": -3, "hi": 3, "im": 0, "is": 1}}
            for other in (0, 2, 4):
                ops = [{"op": "set", "kind": "one", "keys": ["o"], "vals": [other], "num": True}]
                for v in range(lo - 2, hi + 3):
                    ops.append({"op": "setmap", "m": {"q": v}})
                    ops.append({"op": "logprior"})
                out.append({"cfg": cfg, "ops": ops, "seed": 3, "file": False})
    return out


def check(c):
    c.mc_bg("MC_Param", c.pick("MC_Param", "MC_Param_T"), workers=4, timeout=3000)
    sc = []
    for s in c.gen("MC_Param", "Gen_Param", num=c.pick(1200, 20000), depth=60):
        s = expand(s, c.rng)
        if any(o["op"] == "logprior" for o in s["ops"]):
            # observe the prior after everything that changes the table
            ops = []
            for o in s["ops"]:
                if o["op"] in ("get", "exist", "fit"):
                    continue
                ops.append(o)
                if o["op"] in ("set", "setmap", "sample", "sample_init"):
                    ops.append({"op": "logprior"})
            s["ops"] = ops
            sc.append(s)
    c.run_all("Trace_Param", sc + sweep(c))
