"""L07: the log posterior."""
from modlib import setup, run_model as run  # noqa: F401
from modlib import expand, post_ops

LEVEL = "model_checking"
RULE = ("contexts generated by TLC from spec/MC_Model.tla; the posterior is evaluated for parameters "
        "inside, on and outside of the allowed ranges, unknown and missing parameters, 1-3 "
        "repetitions, with real likelihoods and with scripted ones; non-trivial: distinct accepted "
        "contexts")
ASSUMPTIONS = ["values compared in units of 1e-6 (float32 likelihoods: 2e-4 per likelihood)",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Model", c.pick("MC_Model", "MC_Model_T"), workers=4, timeout=3000)
    sc = []
    for w in c.gen("MC_Model", "Gen_Model", num=c.pick(140, 3000), depth=3):
        sc.append(post_ops(expand(w, c.rng, insane=0.2), c.rng, 7))
    c.run_all("Trace_Model", sc)
