"""L06: weighted events."""
from histlib import setup, run  # noqa: F401
from histlib import BAD, expand, raw_scenarios  # noqa: F401

LEVEL = "model_checking"
RULE = ("weighted data of TLC-generated likelihoods and events; non-trivial: distinct accepted scenarios")
ASSUMPTIONS = ["event coordinates are integers and edges rationals, so that single precision decides "
               "every comparison exactly", "TLC and the CommunityModules evaluate the specification "
               "correctly"]


def check(c):
    c.mc_bg("MC_Hist", c.pick("MC_Hist", "MC_Hist_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Hist", "Gen_Hist", num=c.pick(70, 1200), depth=20)
    c.run_all("Trace_Hist", [expand(g, c.rng, ops=("weighted",)) for g in gs])
