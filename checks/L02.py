"""L02: data selection and binning schemes."""
from histlib import setup, run  # noqa: F401
from histlib import BAD, expand, raw_scenarios  # noqa: F401

LEVEL = "model_checking"
RULE = ("likelihood configurations of every bin type generated by TLC from spec/MC_Hist.tla, plus ill-formed "
        "ones; edges and contents judged exactly; non-trivial: distinct accepted configurations")
ASSUMPTIONS = ["event coordinates are integers and edges rationals, so that single precision decides "
               "every comparison exactly", "TLC and the CommunityModules evaluate the specification "
               "correctly"]


def check(c):
    c.mc_bg("MC_Hist", c.pick("MC_Hist", "MC_Hist_T"), workers=4, timeout=3000)
    gs = c.gen("MC_Hist", "Gen_Hist", num=c.pick(500, 6000), depth=20)
    sc = [expand(g, c.rng, nops=0) for g in gs]
    for s in sc:
        s["cfg"]["comps"] = s["cfg"]["comps"][:1] if c.rng.random() < 0.05 else []
    c.run_all("Trace_Hist", sc + [{"bad": [b]} for b in BAD])
