"""L03: normalisation of histograms."""
from histlib import setup, run  # noqa: F401
from histlib import BAD, expand, raw_scenarios  # noqa: F401

LEVEL = "model_checking"
RULE = ("likelihoods with one to three simulated, bootstrapped or fixed components of either normalisation "
        "generated by TLC from spec/MC_Hist.tla; non-trivial: distinct accepted scenarios")
ASSUMPTIONS = ["event coordinates are integers and edges rationals, so that single precision decides "
               "every comparison exactly", "TLC and the CommunityModules evaluate the specification "
               "correctly"]


def check(c):
    c.mc_bg("MC_Hist", c.pick("MC_Hist", "MC_Hist_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Hist", "Gen_Hist", num=c.pick(60, 1200), depth=20)
    c.run_all("Trace_Hist", [expand(g, c.rng, ops=("hist",), noeff=0.15) for g in gs])
