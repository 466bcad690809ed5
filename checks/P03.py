"""P03: the parameter manager (table, sampling, clipping)."""
from parlib import setup, run_param as run  # noqa: F401
from parlib import expand

LEVEL = "model_checking"
RULE = ("sessions of 20 operations on randomly configured parameter managers generated by TLC from "
        "spec/MC_Param.tla, plus sampled distributions of every prior type; non-trivial: distinct "
        "accepted sessions")
ASSUMPTIONS = ["sampling clauses are six-sigma count tests of 300 draws with fixed seeds",
               "TLC and the CommunityModules evaluate the specification correctly"]

WIDE = {"lo": -900, "hi": 900}


def stats(c):
    out = []
    pairs = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 1), (1, 3), (5, 5), (2, 2)]
    for k in range(c.pick(6, 60)):
        r = c.rng
        p, n = pairs[k % len(pairs)]
        cfg = {
            "n": {"t": "norm", "a": r.randint(-9, 9), "b": r.randint(1, 9), **WIDE,
                  "im": r.randint(-9, 9), "is": r.randint(1, 9)},
            "t": {"t": "twohalfnorm", "a": r.randint(-9, 9), "p": p, "n": n, **WIDE,
                  "im": r.randint(-9, 9), "is": r.randint(1, 9)},
            "u": {"t": "uniform", "a": (a := r.randint(-9, 9)), "b": a + r.randint(1, 9), **WIDE,
                  "im": r.randint(-9, 9), "is": r.randint(1, 9)},
            "f": {"t": "free", **WIDE, "im": r.randint(-9, 9), "is": r.randint(1, 9)},
            "x": {"t": "fixed", "a": r.randint(-9, 9)},
        }
        out.append({"cfg": cfg, "seed": r.randrange(10**6), "file": False,
                    "ops": [{"op": "stat", "how": "prior", "n": 300},
                            {"op": "stat", "how": "init", "n": 300}]})
        a = r.randint(-5, 5)
        d = r.choice(["lo", "hi"])
        box = {"lo": a, "hi": a + 100} if d == "lo" else {"lo": a - 100, "hi": a}
        t = [{"t": "norm", "a": a, "b": 3}, {"t": "free"}, {"t": "twohalfnorm", "a": a, "p": 2, "n": 2}]
        cfg = {"e": {**t[k % 3], **box, "im": a, "is": 2}}
        out.append({"cfg": cfg, "seed": r.randrange(10**6), "file": False,
                    "ops": [{"op": "edgestat", "name": "e", "n": 200, "edge": a}]})
    return out


def check(c):
    c.mc_bg("MC_Param", c.pick("MC_Param", "MC_Param_T"), workers=4, timeout=3000)
    sc = [expand(s, c.rng) for s in c.gen("MC_Param", "Gen_Param", num=c.pick(1500, 20000), depth=60)]
    c.run_all("Trace_Param", sc + stats(c))
