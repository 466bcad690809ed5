"""I01: values of maps between and beyond their nodes."""
from interplib import setup, run  # noqa: F401

LEVEL = "model_checking"
RULE = ("regular maps in 1 to 3 dimensions with linear and logarithmic axes, point maps (linear and "
        "logarithmic) and scattered points, every interpolation method, 24 positions each on nodes, "
        "between, outside and at impossible logarithms, generated by TLC from spec/MC_Interp.tla; "
        "non-trivial: distinct accepted maps")
ASSUMPTIONS = ["values are compared to 0.01; on the boundaries between cells inverse distance weighting "
               "is only required to stay within the values of the map",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Interp", c.pick("MC_Interp", "MC_Interp_T"), workers=4, timeout=3000)
    if c.thorough:
        c.mc_bg("MC_Interp", "MC_Interp_T3", workers=4, timeout=3000)
    c.run_all("Trace_Interp", c.gen("MC_Interp", "Gen_Interp", num=c.pick(30, 600), depth=22))
