"""M01: fitting and continuing."""
from fitlib import setup, run  # noqa: F401

LEVEL = "model_checking"
RULE = ("sequences of 11 operations (contexts with and without backend, fits, continuing the own or "
        "another fit, failures in the middle of a run, reloading, posterior queries) generated by TLC "
        "from spec/MC_Fit.tla, with the real sampler and backend; non-trivial: distinct accepted")
ASSUMPTIONS = ["the likelihood is a stub that knows which points were evaluated",
               "TLC and the CommunityModules evaluate the specification correctly"]


def check(c):
    c.mc_bg("MC_Fit", c.pick("MC_Fit", "MC_Fit_T"), workers=4, timeout=3000)
    c.run_all("Trace_Fit", c.gen("MC_Fit", "Gen_Fit", num=c.pick(160, 3000), depth=150))
