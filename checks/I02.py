"""I02: which maps are refused, and densities turned into quantiles."""
from interplib import setup, run  # noqa: F401

LEVEL = "model_checking"
RULE = ("map files with every combination of coordinate types (one or per axis), names, signs, methods "
        "and dimensions, broken files, and tables of densities with 20 probabilities each, generated by "
        "TLC from spec/MC_Interp.tla; non-trivial: distinct accepted files")
ASSUMPTIONS = ["map files contain all the entries of their kind",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Interp", c.pick("MC_Interp", "MC_Interp_T"), workers=4, timeout=3000)
    c.run_all("Trace_Interp", c.gen("MC_Interp", "Gen_Interp_L", num=c.pick(40, 800), depth=22))
