"""L01: every event in exactly one bin."""
from histlib import setup, run  # noqa: F401
from histlib import BAD, expand, raw_scenarios  # noqa: F401

LEVEL = "model_checking"
RULE = ("random binnings with points placed on, inside and outside the edges, weighted; every cell is "
        "judged exactly; non-trivial: distinct accepted scenarios")
ASSUMPTIONS = ["event coordinates are integers and edges rationals, so that single precision decides "
               "every comparison exactly", "TLC and the CommunityModules evaluate the specification "
               "correctly"]


def check(c):
    c.mc_bg("MC_Hist", c.pick("MC_Hist", "MC_Hist_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Hist", "Gen_Hist", num=c.pick(40, 500), depth=20)
    sc = [expand(g, c.rng, ops=("hist",), nops=1) for g in gs]
    c.run_all("Trace_Hist", raw_scenarios(c.rng, c.pick(150, 3000)) + sc)
