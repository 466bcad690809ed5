"""C03: the report of unused settings."""
from optlib import setup, run  # noqa: F401
from optlib import scal, dic, build, num, st, l3, l4, REPORT

LEVEL = "model_checking"
RULE = ("sessions of 14 operations generated by TLC from spec/MC_Options.tla and random sessions with a "
        "report after every operation; non-trivial: distinct accepted sessions")
ASSUMPTIONS = ["TLC and the CommunityModules evaluate the specification correctly"]
VALS = {"ca": [num(1), num(4)], "ma": [st(1), st(3)], "sa": [st(2), l3(4, 2, 7), l4(4, 3, 9, "pa")],
        "sb": [st(2), l4(4, 3, 9, "pb")], "zz": [num(3), st(2)]}


def sessions(rng, n):
    out = []
    for _ in range(n):
        fixed = {o: rng.choice(v) for o, v in VALS.items()}
        dflt = {o: (fixed[o] if rng.random() < .6 and o != "zz" else []) for o in VALS}
        ops, k = [], 0
        for _ in range(rng.randint(3, 8)):
            if rng.random() < .5:
                o = rng.choice(sorted(VALS))
                v = fixed[o]
                ops.append(scal(o, v) if rng.random() < .6 else
                           dic(o, {x: v for x in rng.sample(["la", "lb", "lc"], rng.randint(0, 3))}))
            elif rng.random() < .93:
                k += 1
                ops.append(build(k, rng.sample(["ca", "ma", "sa", "sb"], rng.randint(1, 3)),
                                 rng.choice(["la", "lb", "lc"])))
            else:
                ops.append({"op": "clear"})
            ops.append(REPORT)
        out.append({"dflt": dflt, "ops": ops, "split": rng.randint(0, 1)})
    return out


def check(c):
    c.mc_bg("MC_Options", c.pick("MC_Options", "MC_Options_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Options", "Gen_Options", num=c.pick(40, 1000), depth=80)
    sc = [dict(g, split=i % 2) for i, g in enumerate(gs)] + sessions(c.rng, c.pick(80, 1500))
    c.run_all("Trace_Options", sc)
