"""C04: where resource files are found."""
import json
import os
import shutil

LEVEL = "model_checking"
RULE = ("sequences of 30 operations (create, replace, delete files in three folders, change url_base, "
        "look names and absolute paths up through get_file_path, load_json, map defaults, instruct and "
        "parameter files, set and build options, clear) generated by TLC from spec/MC_Files.tla; "
        "non-trivial: distinct accepted sequences")
ASSUMPTIONS = ["ntauxfiles is not installed and the Mongo downloader is switched off, as shipped",
               "TLC and the CommunityModules evaluate the specification correctly"]


def setup():
    global app, jnp, np, apt, PKG
    import app
    from app import jnp, np, apt
    root = os.path.dirname(apt.__file__)
    PKG = {f: json.load(open(os.path.join(root, d, f)))
           for f, d in (("_elife.json", "maps"), ("er.json", "parameters"))}


def document(name, v):
    """A map that is an instruct as well, or a parameter configuration; v identifies it."""
    par = {"vf_p": {"prior_type": "fixed", "prior_args": {"val": v}, "allowed_range": [0, 100],
                    "init_mean": 1, "init_std": 1, "unit": "1", "doc": "d"}}
    if name in ("er.json", "vf_p.json"):
        return par
    return {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 5.0, 10.0],
            "map": [v, v, v], "vf": v, "par_config": par, "likelihoods": {}}


def content(d, name):
    if isinstance(d, dict) and "vf" in d:
        return d["vf"]
    if isinstance(d, dict) and "vf_p" in d:
        return d["vf_p"]["prior_args"]["val"]
    return 99 if d == PKG.get(name) else -1


_n = [0]


def map_value(name, default):
    """Value of a Map option of this name built by a plugin, or the error."""
    m = apt.Map(name=name, default=default, method="LERP", help="h")
    m.taken_by = "vf"
    _, err = app.attempt(m.build, llh_name="l1")
    if err:
        return None, err
    a = np.asarray(m.map)
    src = PKG["_elife.json"]["map"]
    if a.shape == (len(src),) and np.allclose(a, src):
        return 99, ""
    u = np.unique(a)
    return (app.ints(u)[0] if len(u) == 1 else -1), ""


def run(sc):
    app.reset()
    _n[0] += 1
    root = os.path.join(app.SCRATCH, f"files{_n[0]}")
    dirs = {p: os.path.join(root, p) for p in ("cwd", "b1", "b2")}
    for d in dirs.values():
        os.makedirs(os.path.join(d, "sub"))
    old = os.getcwd()
    os.chdir(dirs["cwd"])
    try:
        return steps(sc, dirs)
    finally:
        os.chdir(old)
        app.reset()
        shutil.rmtree(root)


def steps(sc, dirs):
    ev = []
    for o in sc["ops"]:
        e = dict(o, err="")
        r = o.get("r")
        name = r and (r["name"] if not r["place"] else os.path.join(dirs[r["place"]], r["name"]))
        if o["op"] == "put":
            json.dump(document(o["f"], o["v"]), open(os.path.join(dirs[o["p"]], o["f"]), "w"))
        elif o["op"] == "del":
            os.unlink(os.path.join(dirs[o["p"]], o["f"]))
        elif o["op"] == "base":
            d = dirs[o["b"]]
            _, e["err"] = [
                lambda: app.attempt(apt.Context.update_url_base, None, d),
                lambda: app.attempt(apt.Context, {"url_base": d, "par_config": {}, "likelihoods": {}}),
                lambda: app.attempt(apt.set_global_config, {"url_base": d})][len(ev) % 3]()
        elif o["op"] == "clear":
            _, e["err"] = app.attempt(apt.clear_cache)
        elif o["op"] == "set":
            v = {"l1": name} if o["llh"] else name
            _, e["err"] = app.attempt(apt.set_global_config, {o["o"]: v})
        elif o["op"] == "build":
            e["v"], e["err"] = map_value(o["o"], name)
        elif o["op"] == "look":
            via = o["via"]
            if via == "path":
                p, e["err"] = app.attempt(apt.utils.get_file_path, name)
                if not e["err"]:
                    e["v"] = content(json.load(open(p)), r["name"])
            elif via == "json":
                d, e["err"] = app.attempt(apt.utils.load_json, name)
                e["v"] = content(d, r["name"])
            elif via == "default":
                e["v"], e["err"] = map_value("vf_only", name)
                dict.pop(apt.share._cached_configs, "vf_only", None)
            elif via == "parconfig":
                ctx, e["err"] = app.attempt(apt.Context, {"par_config": name, "likelihoods": {}})
                if not e["err"]:
                    e["v"] = content(ctx.par_config, r["name"])
            elif via == "instruct":
                ctx, e["err"] = app.attempt(apt.Context, name)
                if not e["err"]:
                    e["v"] = content(ctx.instruct, r["name"])
        e.setdefault("v", 0)
        if e["v"] is None:
            e["v"] = 0
        ev.append(e)
    return {"events": ev}


def check(c):
    c.mc_bg("MC_Files", c.pick("MC_Files", "MC_Files_T"), workers=4, timeout=3000)
    c.run_all("Trace_Files", c.gen("MC_Files", "Gen_Files", num=c.pick(150, 4000), depth=120))
