"""P01: needed parameters, copies and the sanity check of a context."""
from modlib import setup, run_model as run  # noqa: F401
from modlib import expand, llh_ops

LEVEL = "model_checking"
RULE = ("contexts of up to 3 likelihoods of up to 3 components (simulated with plugin parameters and "
        "SigmaMap scalers, fixed), aliases, copied parameters and unneeded/missing parameters, "
        "generated by TLC from spec/MC_Model.tla; non-trivial: distinct accepted contexts")
ASSUMPTIONS = ["aliases are injective and not chained",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Model", c.pick("MC_Model", "MC_Model_T"), workers=4, timeout=3000)
    sc = []
    for w in c.gen("MC_Model", "Gen_Model", num=c.pick(260, 4000), depth=3):
        s = expand(w, c.rng, insane=0.4)
        sc.append(llh_ops(s, c.rng, 1) if c.rng.random() < 0.2 else s)
    c.run_all("Trace_Model", sc)
