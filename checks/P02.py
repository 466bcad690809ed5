"""P02: parameter aliases."""
from modlib import setup, run_model as run  # noqa: F401
from modlib import expand, llh_ops

LEVEL = "model_checking"
RULE = ("contexts generated by TLC from spec/MC_Model.tla, every likelihood evaluated (log likelihood "
        "and weighted data) with complete, incomplete and over-complete parameter tables; "
        "non-trivial: distinct accepted contexts")
ASSUMPTIONS = ["aliases are injective and not chained",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Model", c.pick("MC_Model", "MC_Model_T"), workers=4, timeout=3000)
    sc = []
    for w in c.gen("MC_Model", "Gen_Model", num=c.pick(110, 4000), depth=3):
        if not any(l["alias"] for l in w["llhs"]) and c.rng.random() < 0.7:
            continue
        sc.append(llh_ops(expand(w, c.rng, copies=False, insane=0), c.rng, 8))
    c.run_all("Trace_Model", sc)
