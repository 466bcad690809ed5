"""C02: maps with uncertainty."""
from optlib import setup, run  # noqa: F401
from optlib import scal, dic, build, sim, num, st, l3, l4

LEVEL = "model_checking"
RULE = ("sessions of 14 operations (set scalar / per-likelihood dictionary, build components with "
        "constants, maps and maps with uncertainty of every form, evaluate them at integer positions "
        "with parameters in halves, report, clear) generated by TLC from spec/MC_Options.tla and every "
        "combination of default form, explicit form and likelihood; non-trivial: distinct accepted")
ASSUMPTIONS = ["maps are linear on [0, 10] and parameters multiples of 1/2, so that the values are "
               "exact in single precision",
               "TLC and the CommunityModules evaluate the specification correctly"]
ALL = {"sa_sigma", "sb_sigma", "pa", "pb"}


def combos(rng):
    """Every (default, setting) pair of forms, evaluated on both sides of the median."""
    none = []
    vals = [none, st(2), l3(4, 2, 7), l4(4, 3, 9, "pa")]
    sets = vals + ["d-own", "d-other", "d-both"]
    out = []
    for d in vals:
        for s in sets:
            ops = []
            if s == "d-own":
                ops.append(dic("sa", {"la": l4(5, 3, 6, "pb")}))
            elif s == "d-other":
                ops.append(dic("sa", {"lb": l3(5, 3, 6)}))
            elif s == "d-both":
                ops.append(dic("sa", {"la": l3(5, 3, 6), "lb": l4(3, 1, 4, "pb")}))
            elif s:
                ops.append(scal("sa", s))
            ok = bool(d or s) and s != "d-other"
            ops.append(build(1, ["sa"], "la"))
            if s == "d-both":
                ops.append(build(2, ["ma", "sa"], "lb"))
            for i in ([1, 2] if s == "d-both" else [1]) if ok else []:
                for k in (-3, -2, -1, 0, 1, 2, 3):
                    tab = {p: k for p in ALL}
                    for p in ALL - {rng.choice(sorted(ALL))}:
                        if rng.random() < .3:
                            tab[p] = rng.randint(-4, 4)
                    ops.append(sim(i, rng.randint(0, 10), tab))
                for p in sorted(ALL):
                    ops.append(sim(i, 3, {q: 1 for q in ALL if q != p}))
                # what is set later does not matter
                ops.append(scal("sa", l4(9, 8, 9, "pa")))
                ops.append(sim(i, 2, {p: q for p, q in zip(sorted(ALL), (1, 2, -1, -2))}))
            out.append({"dflt": {"ca": num(1), "ma": st(1), "sa": d, "sb": l3(3, 2, 4), "zz": []},
                        "ops": ops})
    return out


def check(c):
    c.mc_bg("MC_Options", c.pick("MC_Options", "MC_Options_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Options", "Gen_Options", num=c.pick(60, 1200), depth=80)
    sc = [dict(g, split=i % 2) for i, g in enumerate(gs)]
    for k in range(c.pick(1, 6)):
        sc += [dict(s, split=(i + k) % 2) for i, s in enumerate(combos(c.rng))]
    c.run_all("Trace_Options", sc)
