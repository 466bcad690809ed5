"""Helpers for code running inside the workers (imports the code under test)."""
import contextlib
import io
import math
import os
import types
import warnings

warnings.filterwarnings("ignore")
with contextlib.redirect_stdout(io.StringIO()):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import appletree as apt
    from appletree import share

SCRATCH = os.environ.get("VF_SCRATCH", ".")


def reset():
    apt.clear_cache()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def attempt(f, *a, **k):
    """(result, error class name)"""
    try:
        with quiet():
            return f(*a, **k), ""
    except Exception as e:
        return None, type(e).__name__


_n = [0]


def publish(*classes, force=True):
    """Make plugin/component classes visible to appletree the documented way."""
    _n[0] += 1
    m = types.ModuleType(f"vfmod{_n[0]}")
    for c in classes:
        setattr(m, c.__name__, c)
    with quiet():
        apt.add_plugin_extensions(apt.plugins, m, force=force)
    return m


def make_plugin(clsname, provides, depends_on, body, parameters=(), base=None, ns=None):
    """Plugin class whose simulate(self, key, parameters, *depends_on) runs body(self, key,
    parameters, *deps)."""
    ns = dict(ns or {})
    ns["_body"] = body
    args = ", ".join(depends_on)
    src = f"def simulate(self, key, parameters, {args}):\n    return _body(self, key, parameters, {args})\n"
    exec(src, ns)
    return type(clsname, (base or apt.Plugin,),
                {"provides": list(provides), "depends_on": list(depends_on),
                 "parameters": tuple(parameters), "simulate": ns["simulate"],
                 "__module__": "vfplugins"})


def ints(a):
    """Exact integers of an array, refusing anything else."""
    a = np.asarray(a)
    if a.ndim == 0:
        a = a[None]
    out = []
    for v in a.ravel().tolist():
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float):
            if not math.isfinite(v) or v != int(v):
                return ["nonint"]
            v = int(v)
        out.append(v)
    return out
