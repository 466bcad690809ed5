"""Shared machinery of the checks: TLC runner, scenario execution, verdicts, evidence.

The main process never imports the code under test.  Scenarios (JSON) are produced from the
TLA+ specification (TLC) and from seeded generators, executed against /repo by worker processes
(`python -m vf worker`), recorded as traces and judged by TLC (spec/Trace_*.tla).
"""
import concurrent.futures
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")


class Machinery(Exception):
    """The check itself failed: neither exit 0 nor a violation."""


def tlc(module, cfg, env=None, workers=4, args=(), timeout=800, xmx="3g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; return (rc, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
           "-config", f"{cfg}.cfg", *args, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Check:
    """One run of one property check."""

    def __init__(self, pid, mod):
        self.pid, self.mod = pid, mod
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}-{self.tier}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.model_runs = []
        self.validated = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.viol = []
        self.pool, self.futures = None, []
        self.work = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        self.thorough = self.tier == "thorough"

    # ---- specification side ------------------------------------------------
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, module, cfg=None, workers=4, timeout=600, expect_actions=()):
        """Exhaustive model checking of the design; failure is a machinery error."""
        cfg = cfg or module
        t = time.time()
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout)
        m = STATS.findall(out)
        if rc != 0 or not m:
            raise Machinery(f"model checking {module}/{cfg} failed rc={rc}\n{out[-3000:]}")
        gen, dis = map(int, m[-1])
        self.states += dis
        self.transitions += gen
        self.model_runs.append({"model": f"spec/{cfg}.cfg", "states": dis, "transitions": gen,
                                "exhaustive": True, "wall_s": round(time.time() - t, 2)})
        return out

    def mc_bg(self, *a, **k):
        """mc() in the background; joined by finish()."""
        if self.pool is None:
            self.pool = concurrent.futures.ThreadPoolExecutor(1)
        self.futures.append(self.pool.submit(self.mc, *a, **k))

    def gen(self, module, cfg=None, num=None, depth=None, workers=1, timeout=300, limit=None,
            env=None):
        """Behaviours printed by a generator specification as "G|<json>" lines.

        With num: TLC random simulation (seeded); without: exhaustive enumeration."""
        cfg = cfg or module
        args = []
        if num:
            args = ["-simulate", f"num={num}", "-depth", str(depth or 50),
                    "-seed", str(1000 + 7919 * self.seed + zlib.crc32(self.pid.encode()) % 7919)]
        rc, out = tlc(module, cfg, workers=workers, args=args, timeout=timeout, env=env)
        res = []
        for line in out.splitlines():
            if line.startswith('"G|'):
                res.append(json.loads(json.loads(line)[2:]))
        if not res or rc not in (0,):
            raise Machinery(f"generation {module}/{cfg} failed rc={rc}\n{out[-3000:]}")
        m = STATS.findall(out)
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        self.model_runs.append({"model": f"spec/{cfg}.cfg", "behaviours": len(res),
                                "exhaustive": not num})
        # canonical order: TLC workers may print in any order
        res.sort(key=lambda r: json.dumps(r, sort_keys=True))
        uniq, seen = [], set()
        for r in res:
            k = json.dumps(r, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(r)
        if limit and len(uniq) > limit:
            uniq = self.rng.sample(uniq, limit)
        return uniq

    # ---- implementation side -----------------------------------------------
    def execute(self, scenarios, workers=6, timeout=None):
        """Run scenarios against /repo in worker processes; returns traces in order."""
        n = max(1, min(workers, len(scenarios)))
        timeout = timeout or self.pick(700, 3000)
        procs = []
        for k in range(n):
            fin = os.path.join(self.work, f"in{k}_{len(os.listdir(self.work))}.json")
            shard = list(enumerate(scenarios))[k::n]
            json.dump(shard, open(fin, "w"))
            fout = fin + ".out"
            scratch = tempfile.mkdtemp(prefix=f"scr{k}_", dir=self.work)
            env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
                       MPLBACKEND="Agg", PYTHONPATH=f"{REPO}:{VERIF}/lib:{VERIF}",
                       VF_SCRATCH=scratch, OMP_NUM_THREADS="2", PYTHONHASHSEED=str(self.seed),
                       XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=2",
                       MPLCONFIGDIR=scratch)
            log = open(fin + ".log", "w")
            p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "lib", "vf.py"),
                                  "worker", self.mod.__name__.split(".")[-1], fin, fout],
                                 env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs.append((p, fin, fout, shard))
        traces = {}
        end = time.time() + timeout
        for p, fin, fout, shard in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            done = {}
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        i, tr = json.loads(line)
                        done[i] = tr
                    except ValueError:
                        pass
            log = open(fin + ".log").read()
            if not done and "VF-WORKER-READY" not in log:
                raise Machinery("worker did not start:\n" + log[-3000:])
            for i, sc in shard:
                if i not in done:
                    done[i] = {"events": [{"op": "crash", "err": "worker-died"}]}
            traces.update(done)
        return [traces[i] for i in range(len(scenarios))]

    # ---- binding -------------------------------------------------------------
    def validate(self, module, scenarios, traces, workers=4, cfg=None, timeout=600):
        """TLC judges every trace; violations are recorded."""
        cfg = cfg or module
        assert len(scenarios) == len(traces)
        todo = []
        verdict = {}
        for i, tr in enumerate(traces):
            c = [k for k, e in enumerate(tr["events"]) if e.get("op") == "crash"]
            if c:
                verdict[i] = (c[0] + 1, "unexpected-exception",
                              tr["events"][c[0]].get("err", ""))
            elif not tr["events"]:
                raise Machinery(f"empty trace for scenario {scenarios[i]}")
            else:
                todo.append(i)

        def run(idx):
            f = os.path.join(self.work, f"tr{len(os.listdir(self.work))}.json")
            json.dump([traces[i] for i in idx], open(f, "w"))
            rc, out = tlc(module, cfg, env={"TRACE_FILE": f}, workers=workers, timeout=timeout)
            got = {}
            for line in out.splitlines():
                if line.startswith('"V|'):
                    _, t, p, c, d = json.loads(line).split("|", 4)
                    got[idx[int(t) - 1]] = (int(p), c, d)
            if len(got) < len(idx):
                if "semantic analysis failed" in out or "OutOfMemory" in out:
                    raise Machinery(f"TLC trace validation {module} rc={rc}\n{out[-3000:]}")
                if "evaluating" not in out and "Attempted" not in out and \
                        "Error:" not in out:
                    raise Machinery(f"TLC trace validation {module} rc={rc}\n{out[-3000:]}")
                self.notes["bisections"] = self.notes.get("bisections", 0) + 1
                if self.notes.get("ill_typed") and self.notes["bisections"] > 40:
                    # enough is known: a violation is established
                    for i in idx:
                        got.setdefault(i, (0, "not-judged", ""))
                elif len(idx) == 1:
                    err = out[out.find("Error:"):][:600]
                    got[idx[0]] = (0, "ill-typed-observation", err.replace("\n", " "))
                    self.notes["ill_typed"] = self.notes.get("ill_typed", 0) + 1
                    if os.environ.get("VF_DEBUG"):
                        print(out[-3000:])
                else:
                    # the failing ones are among the missing: bisect those
                    miss = [i for i in idx if i not in got]
                    if len(miss) == 1:
                        got.update(run(miss))
                    else:
                        h = len(miss) // 2
                        got.update(run(miss[:h]))
                        got.update(run(miss[h:]))
            m = STATS.findall(out)
            if m:
                self.states += int(m[-1][1])
                self.transitions += int(m[-1][0])
            return got

        CH = 4000
        for a in range(0, len(todo), CH):
            verdict.update(run(todo[a:a + CH]))
        nbad = 0
        for i, (p, c, d) in sorted(verdict.items()):
            if c == "OK":
                self.validated += 1
                self.events += len(traces[i]["events"])
                self.distinct.add(hashlib.sha1(
                    json.dumps(scenarios[i], sort_keys=True).encode()).hexdigest())
            elif c == "not-judged":
                self.notes["not_judged"] = self.notes.get("not_judged", 0) + 1
            else:
                nbad += 1
                self.viol.append({"module": module, "cfg": cfg, "scenario": scenarios[i],
                                  "event": p, "clause": c, "expected": d, "trace": traces[i]})
        if scenarios:
            for i in (0, len(scenarios) // 2, len(scenarios) - 1):
                if len(self.samples) < 6:
                    s = {"scenario": scenarios[i], "trace": traces[i], "verdict": verdict[i]}
                    txt = json.dumps(s)
                    self.samples.append(s if len(txt) < 4000 else txt[:4000])
        self.notes[f"traces_{module}"] = self.notes.get(f"traces_{module}", 0) + len(traces)
        return nbad

    def run_all(self, module, scenarios, workers=6, cfg=None, timeout=None):
        traces = self.execute(scenarios, workers=workers, timeout=timeout)
        return self.validate(module, scenarios, traces, cfg=cfg)

    # ---- verdict -------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        fresh, hit = [], {}
        for v in self.viol:
            k = match_known(known, v)
            if k is None:
                fresh.append(v)
            else:
                hit[k["id"]] = k
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(rdir, f"{self.pid}-{n}.json")
            json.dump(v, open(path, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  clause={v['clause']} event={v['event']} expected={v['expected'][:300]}")
            ev = v["trace"]["events"]
            if 0 < v["event"] <= len(ev):
                print("  observed=" + json.dumps(ev[v["event"] - 1])[:600])
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.mod.LEVEL,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "evaluations": self.notes_total(),
                "distinct_nontrivial": len(self.distinct),
                "rule": self.mod.RULE,
                "events_validated": self.events,
                "model_runs": self.model_runs,
                "samples": self.samples,
                "notes": self.notes,
            },
            "assumptions": self.mod.ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{self.pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, f"{self.pid}.json"))
        print(f"{self.pid} tier={self.tier} seed={self.seed} states={self.states} "
              f"traces={self.validated} violations={len(fresh)} wall={ev['wall_s']}s")
        return 1 if fresh else 0

    def notes_total(self):
        return sum(v for k, v in self.notes.items() if k.startswith("traces_"))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]


def match_known(known, v):
    for k in known:
        m = k["match"]
        if m.get("clause") == v["clause"] and \
                m.get("finding") is not None and m["finding"] == v["scenario"].get("finding"):
            return k
    return None


# ---- worker ------------------------------------------------------------------
class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def worker(modname, fin, fout):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(modname)
    shard = json.load(open(fin))
    if hasattr(mod, "setup"):
        print("VF-WORKER-IMPORT", flush=True)
        mod.setup()
    print("VF-WORKER-READY", flush=True)
    signal.signal(signal.SIGALRM, _alarm)
    with open(fout, "w") as out:
        for i, sc in shard:
            signal.alarm(int(getattr(mod, "SCENARIO_TIMEOUT", 120)))
            try:
                tr = mod.run(sc)
            except Timeout:
                tr = {"events": [{"op": "crash", "err": "timeout"}]}
            except Exception as e:
                traceback.print_exc()
                sys.stdout.flush()
                tr = {"events": [{"op": "crash", "err": f"{type(e).__name__}: {e}"[:500]}]}
            signal.alarm(0)
            try:
                line = json.dumps([i, tr])
            except TypeError as e:
                line = json.dumps([i, {"events": [{"op": "crash", "err": f"unserialisable {e}"}]}])
            out.write(line + "\n")
            out.flush()


def main(argv):
    if argv[0] == "worker":
        return worker(*argv[1:4])
    pid = argv[0]
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(pid)
    c = Check(pid, mod)
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            v = json.load(open(argv[2]))
            c.run_all(v["module"], [v["scenario"]], workers=1, cfg=v.get("cfg"))
        else:
            mod.check(c)
            for f in c.futures:
                f.result()
        rc = c.finish()
    except Machinery as e:
        print(f"MACHINERY-ERROR property={pid}: {e}")
        # a violation already established stays one
        rc = c.finish() if c.viol else 2
        rc = rc or 2
    finally:
        c.close()
    sys.exit(rc)


if __name__ == "__main__":
    main(sys.argv[1:])
