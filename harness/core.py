"""TLC runner, trace recording, verdicts and evidence."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import BrokenExecutor, ProcessPoolExecutor
from concurrent.futures import TimeoutError as FutureTimeout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# ---------------------------------------------------------------- projection
# Reals are logged as fixed-point integers (TLC integers have 32 bits).
# spec/TraceLib.tla has the same constants.
UNIT = 1 << 20
LIM = 1 << 28
NANV, INFV, NINFV, BIGV, NBIGV = 2000000001, 2000000002, -2000000002, 1900000000, -1900000000


def q1(x, unit=UNIT):
    x = float(x)
    if x != x:
        return NANV
    if x == float("inf"):
        return INFV
    if x == float("-inf"):
        return NINFV
    v = x * unit
    if v > LIM:
        return BIGV
    if v < -LIM:
        return NBIGV
    return int(round(v))


def q(x, unit=UNIT):
    """Project a real array to a flat list of fixed-point integers."""
    import numpy as np
    a = np.asarray(x)
    if np.iscomplexobj(a):
        a = np.stack([a.real, a.imag], -1)
    return [q1(v, unit) for v in a.ravel().tolist()]


def ints(x):
    """An array of exactly representable integers as a flat list; anything else
    becomes the NaN marker, so that a spec comparing exactly rejects it."""
    import numpy as np
    out = []
    for v in np.asarray(x).ravel().tolist():
        if isinstance(v, complex):
            out += ints([v.real, v.imag])
            continue
        v = float(v)
        r = round(v) if v == v and abs(v) < LIM else None
        out.append(int(r) if r is not None and abs(v - r) < 1e-6 else NANV)
    return out


def shape(x):
    import numpy as np
    return [int(s) for s in np.shape(x)]


def err(what, e, **kw):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/src/bijx/" in f.filename]
    return dict(ev="Error", what=what, err=(type(e).__name__ + ": " + str(e))[:300],
                at=(loc[-1] if loc else ""), **kw)


class MachineryError(Exception):
    pass


def _job(args):
    modname, fname, arg = args
    try:
        import jax
        jax.config.update("jax_enable_x64", True)
        mod = importlib.import_module(modname)
        out = getattr(mod, fname)(arg)
        jax.clear_caches()
        return "ok", out
    except Exception:
        return "fail", traceback.format_exc()


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.models = []
        self.violations = []  # (key, event, clause)
        self.notes = {}
        self.clauses = {}

    def log(self, *a):
        print(f"[{time.time()-self.t0:6.1f}s]", *a, flush=True)

    def nprng(self, *salt):
        import zlib

        import numpy as np
        return np.random.default_rng([self.seed] + [zlib.crc32(str(s).encode()) for s in salt])

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers="1", extra=(), timeout=600, tag=""):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", os.path.join(SPEC, cfg), "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), *extra, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timeout on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p.returncode, out, gen, dist

    def model(self, module, cfg=None, env=None, workers="auto", extra=(), cov=None, timeout=600):
        """Exhaustive model checking of a design module; must succeed."""
        rc, out, gen, dist = self._tlc(module, cfg or module + ".cfg", env, workers, extra, timeout)
        if rc != 0:
            raise MachineryError(f"model {module} failed in TLC:\n" + out[-3000:])
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, cfg=cfg or module + ".cfg", states=dist, generated=gen))
        self.log(f"model {module}/{cfg or module + '.cfg'}: {dist} states, {gen} generated")
        return out

    def generate(self, module, cfg=None, env=None, extra=(), timeout=600, workers=None):
        """Run a generating module; returns the cases TLC printed."""
        rc, out, gen, dist = self._tlc(module, cfg or module + ".cfg", env,
                                       workers or ("1" if "-simulate" in extra else "6"), extra, timeout)
        if rc != 0:
            raise MachineryError(f"generator {module} failed in TLC:\n" + out[-3000:])
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, cfg=cfg or module + ".cfg", states=dist,
                                generated=gen, cases=len(cases)))
        self.log(f"generator {module}/{cfg or module+'.cfg'}: {len(cases)} cases, {dist} states")
        if not cases:
            raise MachineryError(f"generator {module} printed no case")
        return cases

    def validate(self, module, events, cfg=None, env=None, timeout=600, count=None):
        """Validate recorded events against a trace spec with total verdicts."""
        if not events:
            raise MachineryError(f"no events recorded for {module}")
        todo = list(range(len(events)))
        path = os.path.join(self.work, module + ".ndjson")
        found = []
        for attempt in range(25):
            with open(path, "w") as f:
                for i in todo:
                    f.write(json.dumps(events[i]) + "\n")
            rc, out, gen, dist = self._tlc(module, cfg or module + ".cfg",
                                           dict(env or {}, VP_TRACE=path), "1", (), timeout)
            verdict = None
            for line in out.splitlines():
                if line.startswith('"VERDICT '):
                    verdict = json.loads(json.loads(line)[8:])
            if rc == 0 and verdict is not None:
                if verdict["consumed"] != len(todo):
                    raise MachineryError(f"{module} consumed {verdict['consumed']} of {len(todo)} lines")
                for b in verdict["bad"]:
                    found.append((todo[b["line"] - 1], b["clause"]))
                for k, v in verdict.get("cov", {}).items():
                    self.clauses[k] = self.clauses.get(k, 0) + v
                break
            # An event the specification cannot even be evaluated on (wrong
            # types, missing parts): not a behaviour of the specification.
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            if not ls or "Error" not in out or rc in (150, 151, 152):
                raise MachineryError(f"trace validation {module} failed:\n" + out[-4000:])
            k = int(ls[-1]) - 1
            if os.environ.get("VP_KEEP"):
                self.log("TLC evaluation error:", out[-2500:])
            found.append((todo[k], "observation-outside-the-specification"))
            # restart after the offending line (stateful traces: drop its episode)
            ep = events[todo[k]].get("ep")
            if ep is None:
                todo = todo[:k] + todo[k + 1:]
            else:
                todo = [i for i in todo if events[i].get("ep") != ep]
            if not todo:
                break
        else:
            self.log(f"{module}: more than 25 lines outside the specification")
        self.states += dist
        self.transitions += gen
        eps = {e.get("ep", ("line", i)) if e.get("ep") is not None else ("line", i) for i, e in enumerate(events)}
        n = count if count is not None else len(eps)
        self.traces += n
        self.models.append(dict(module=module, lines=len(events), traces=n, states=dist))
        self.log(f"trace {module}: {len(events)} lines, {n} traces, {len(found)} rejected clauses")
        if len(self.samples) < 6:
            self.samples.append(_trim(events[len(events) // 3]))
            self.samples.append(_trim(events[(2 * len(events)) // 3]))
        for i, clause in found:
            ev = events[i]
            self.violations.append((f"{ev.get('key', ev.get('what', ev.get('ev')))}|{clause}", ev, clause))
        return found

    # ----------------------------------------------------------- parallelism
    @staticmethod
    def _pool(modname, fname, args, idx, procs, deadline, results):
        """Runs jobs idx; fills results; returns the jobs a dying worker took along."""
        ex = ProcessPoolExecutor(min(procs, len(idx)), mp_context=mp.get_context("spawn"))
        lost = []
        try:
            fs = [(i, ex.submit(_job, (modname, fname, args[i]))) for i in idx]
            for i, f in fs:
                try:
                    results[i] = f.result(max(1.0, deadline - time.time()))
                except FutureTimeout:
                    results[i] = ("hang", "the call did not return")
                except BrokenExecutor:
                    lost.append(i)
        except BrokenExecutor:
            lost = [i for i in idx if i not in results]
        finally:
            for p in list((getattr(ex, "_processes", None) or {}).values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
        return lost

    def pmap(self, modname, fname, args, procs=None, timeout=None):
        """Run modname.fname on each argument in separate processes; each call
        returns a list of events.  A call that dies or hangs is an Error event."""
        args = list(args)
        procs = procs or int(os.environ.get("VP_PROCS", "8"))
        timeout = timeout or (420 if self.quick else 3000)
        results, deadline = {}, time.time() + timeout
        todo = list(range(len(args)))
        # a worker that vanishes (memory) takes its pool with it: the jobs left
        # over are run again with fewer workers, at last each one on its own
        for n in (procs, max(1, procs // 2), 1):
            if todo:
                todo = self._pool(modname, fname, args, todo, n, deadline, results)
        for i in todo:
            self._pool(modname, fname, args, [i], 1, deadline, results)
        out = []
        for i, a in enumerate(args):
            st, v = results.get(i, ("lost", "the process died"))
            if st == "fail":
                raise MachineryError("observer failed:\n" + v)
            if st == "ok":
                out.extend(v)
            else:
                out.append(dict(ev="Error", what="no answer", err=v, at="", key=f"hang:{str(a)[:80]}"))
        self.log(f"observed {len(out)} events from {len(args)} jobs")
        return out

    # --------------------------------------------------------------- verdict
    def finish(self):
        known = load_known(self.pid)
        new, seen_known = [], set()
        for key, ev, clause in self.violations:
            k = next((f for f in known if re.fullmatch(f["match"], key)), None)
            if k is not None:
                if k["match"] not in seen_known:
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                seen_known.add(k["match"])
            else:
                new.append((key, ev, clause))
        ev = dict(
            property=self.pid, tier="quick" if self.quick else "thorough", seed=self.seed,
            level="model_checking",
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces,
                          samples=self.samples or [dict(note="none")],
                          runs=self.models, clause_evaluations=self.clauses, **self.notes),
            assumptions=["TLC and the JVM", "the Python observer that logs inputs and outputs of public calls"],
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new:
            print(f"OK property={self.pid} states={self.states} traces={self.traces} wall={time.time()-self.t0:.1f}s")
            return 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.pid + ".json")
        with open(path, "w") as f:
            json.dump([dict(key=k, clause=c, event=e) for k, e, c in new[:200]], f, indent=1)
        shown = set()
        for k, e, c in new:
            if k in shown or len(shown) >= 12:
                continue
            shown.add(k)
            print("  rejected:", k, json.dumps(_trim(e))[:600])
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def _trim(e):
    if isinstance(e, dict):
        return {k: _trim(v) for k, v in e.items()}
    if isinstance(e, list) and len(e) > 12:
        return [_trim(v) for v in e[:12]] + ["..."]
    if isinstance(e, list):
        return [_trim(v) for v in e]
    return e


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(pid):
    ctx = Ctx(pid)
    try:
        import bijx
        repo = os.environ["VP_REPO"]
        if not os.path.realpath(bijx.__file__).startswith(os.path.realpath(repo) + "/"):
            raise MachineryError(f"bijx imported from {bijx.__file__}")
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY ERROR")
        return 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
