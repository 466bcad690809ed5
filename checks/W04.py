"""W04: deduction/compilation of one component never disturbs another one."""
from sesslib import setup, run_session as run  # noqa: F401
from sesslib import COMPS

LEVEL = "model_checking"
RULE = ("sessions generated by TLC from spec/MC_Session.tla with 6 components (same / different "
        "likelihoods, colliding function names, colliding component names, shared plugin classes), "
        "deduced, compiled and simulated in any order, with configuration changes and cache clears "
        "in between; non-trivial: distinct accepted sessions")
ASSUMPTIONS = ["plugin class names are distinct (plugins are looked up by class name)",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Session", c.pick("MC_Session", "MC_Session_T"), workers=4, timeout=3000)
    sc = [{"comps": COMPS, "flt": i % 2, "ops": s["ops"]}
          for i, s in enumerate(c.gen("MC_Session", "Gen_Session_W",
                                      num=c.pick(110, 1500), depth=300))]
    # every ordered pair of components, interleaved in every order of deduce/compile
    k2 = {"op": "set", "k": "k2", "kind": "s", "v": 4, "m": {}}
    d = lambda c: {"op": "deduce", "c": c}
    m = lambda c: {"op": "compile", "c": c}
    s = lambda c: {"op": "simulate", "c": c}
    names = lambda i: {("f", i["func"])} | {("i", i["name"], k) for k in i["keys"]}
    for x in sorted(COMPS):
        for y in sorted(COMPS):
            a, b = COMPS[x], COMPS[y]
            clash = a["llh"] == b["llh"] and bool(names(a) & names(b))
            st1 = {"op": "set", "k": "k1", "kind": "s", "v": 2, "m": {}}
            st3 = {"op": "set", "k": "k3", "kind": "s", "v": 4, "m": {}}
            if clash:
                sc.append({"comps": COMPS, "ops": [k2, d(x), m(x), st1, d(y), s(x), m(x), s(x)]})
                sc.append({"comps": COMPS, "ops": [
                    k2, d(x), m(x), {"op": "clear_functions"}, st1, st3, d(y), m(y), s(x), s(y)]})
            else:
                sc.append({"comps": COMPS, "ops": [k2, d(x), d(y), m(x), st1, st3, m(y), s(x),
                                                   s(y), m(x), s(x), s(y)]})
                sc.append({"comps": COMPS, "ops": [k2, d(x), m(x), st1, st3, d(y), s(x), m(y),
                                                   s(y), s(x)]})
    c.run_all("Trace_Session", sc)
