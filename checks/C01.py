"""C01: the configuration value in force for a likelihood."""
from sesslib import setup, run_session as run  # noqa: F401
from sesslib import COMPS, with_shows

LEVEL = "model_checking"
RULE = ("sessions of 24 operations (set scalar / per-likelihood dictionary / invalid value, deduce, "
        "compile, simulate, show_config, clear) on 6 components of 3 likelihoods using Constant, "
        "Map and ConstantSet options with and without defaults, generated by TLC from "
        "spec/MC_Session.tla; non-trivial: distinct accepted sessions")
ASSUMPTIONS = ["options of one name have one default across plugins",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Session", c.pick("MC_Session", "MC_Session_T"), workers=4, timeout=3000)
    sc = []
    for i, s in enumerate(c.gen("MC_Session", "Gen_Session", num=c.pick(110, 1500), depth=300)):
        sc.append({"comps": COMPS, "flt": i % 2, "ops": with_shows(c.rng, s["ops"], COMPS)})
    # every per-likelihood dictionary / scalar / absent combination of every option
    k = 0
    for key in ("k1", "k2", "k3", "k4"):
        comp = {"k1": "a", "k2": "d", "k3": "e", "k4": "g"}[key]
        llh = COMPS[comp]["llh"]
        other = "l2" if llh != "l2" else "l1"
        need = [x for x in COMPS[comp]["keys"] if x == "k2" and key != "k2"]
        pre = [{"op": "set", "k": x, "kind": "s", "v": 4, "m": {}} for x in need]
        S = lambda **kw: dict({"op": "set", "k": key, "v": 0, "m": {}}, **kw)
        settings = [[], [S(kind="s", v=4)], [S(kind="d", m={llh: 3})], [S(kind="d", m={other: 3})],
                    [S(kind="d", m={llh: 3, other: 4})], [S(kind="d", m={})],
                    [S(kind="s", v=4), S(kind="d", m={llh: 3})],
                    [S(kind="d", m={llh: 3}), S(kind="s", v=4)],
                    [S(kind="d", m={llh: 3}), S(kind="d", m={other: 4})],
                    [S(kind="s", v=4), S(kind="bad")], [S(kind="s", v=4), S(kind="nofile")],
                    [S(kind="s", v=2), S(kind="s", v=3), S(kind="s", v=2)]]
        run_ = [{"op": o, "c": comp} for o in ("deduce", "compile")]
        sim = {"op": "simulate", "c": comp}
        for st in settings:
            ok = not st or st[-1]["kind"] in ("bad", "nofile", "s") or llh in st[-1]["m"]
            if not st and key == "k2":
                ok = False
            # set before, set between deduce and compile, set after compile (no effect)
            sc.append({"comps": COMPS, "flt": k % 2,
                       "ops": pre + st + run_ + ([sim] if ok else [])})
            sc.append({"comps": COMPS, "flt": k % 2,
                       "ops": pre + run_[:1] + st + run_[1:] + ([sim] if ok else [])})
            sc.append({"comps": COMPS, "flt": k % 2,
                       "ops": pre + [S(kind="s", v=3)] + run_ + [sim] + st + [sim] + run_[1:]
                       + [sim]})
            k += 1
    c.run_all("Trace_Session", sc)
