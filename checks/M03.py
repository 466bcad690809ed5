"""M03: contexts recreated from backends, and what a backend file says."""
from fitlib import setup, run  # noqa: F401

LEVEL = "model_checking"
RULE = ("sequences of 11 operations, mostly reloading (from the file or a renamed copy) and reading the "
        "metadata, between fits, continuations and queries, generated by TLC from spec/MC_Fit.tla, with "
        "the real sampler and backend; non-trivial: distinct accepted sequences")
ASSUMPTIONS = ["the likelihood is a stub that knows which points were evaluated",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Fit", c.pick("MC_Fit", "MC_Fit_T"), workers=4, timeout=3000)
    c.run_all("Trace_Fit", c.gen("MC_Fit", "Gen_Fit_R", num=c.pick(160, 3000), depth=150))
