"""Obligations, units, replay, evidence."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

from . import env
import sympy

from . import engine, smt

PY = sys.executable


class Rec:
    """Records the obligations of one unit."""

    def __init__(self, unit, tier):
        self.unit = unit
        self.tier = tier
        self.thorough = tier == "thorough"
        self.obs = []
        self.covers = 0
        self.bounded_note = None
        self.rng = random.Random(f"{env.SEED}:{unit}")

    # -- bookkeeping
    def _add(self, name, status, backend, kind, t, detail="", cands=None):
        self.obs.append({
            "name": f"{self.unit}/{name}", "status": status, "backend": backend, "kind": kind,
            "t": round(time.time() - t, 3), "detail": str(detail)[:2000], "cands": cands or []})
        return status == "discharged"

    def cover(self, name, hyps):
        """The precondition is satisfiable (guards against vacuous proofs)."""
        t = time.time()
        r = smt.sat(list(hyps))
        self.covers += 1
        if r == "sat":
            return True
        if r == "unsat":
            return self._add("cover:" + name, "failed", "z3", "cover", t, "precondition unsatisfiable")
        return self._add("cover:" + name, "undecided", "z3", "cover", t, r)

    def _numeric_cands(self, expr, case, hyps=(), n=6, tries=200):
        """Assignments on which expr != 0 (Schwartz-Zippel), turned into replay cases."""
        out = []
        if case is None:
            return out
        fs = sorted(expr.free_symbols, key=str) if expr is not None else []
        allsyms = set(fs)
        for h in hyps:
            allsyms |= h.free_symbols
        allsyms = sorted(allsyms, key=str)
        for _ in range(tries):
            sub = {s: sympy.Rational(self.rng.randint(-6, 6), self.rng.choice([1, 1, 1, 2, 3]))
                   if not s.is_integer else sympy.Integer(self.rng.randint(-6, 6)) for s in allsyms}
            try:
                if any(h.subs(sub) != True for h in hyps):  # noqa: E712
                    continue
                if expr is not None:
                    v = expr.subs(sub)
                    if not v.is_number or abs(sympy.N(v)) < 1e-12:
                        continue
            except Exception:
                continue
            out.append(case({str(k): v for k, v in sub.items()}))
            if len(out) >= n:
                break
        return out

    # -- proof obligations
    def zero(self, name, expr, hyps=(), case=None):
        """expr == 0 for every value of its symbols (under hyps)."""
        t = time.time()
        try:
            e = sympy.S(expr)
            if smt.is_zero(e):
                return self._add(name, "discharged", "ring", "proved", t)
            if hyps:
                num, den = smt.ratio(e)
                r, m = smt.sat(list(hyps) + [sympy.Ne(num, 0)], True)
                if r == "unsat":
                    return self._add(name, "discharged", "z3", "proved", t)
                if r == "sat":
                    cands = []
                    if case is not None:
                        cands = [case(_fill(m, num, hyps))] + self._numeric_cands(e, case, hyps, 4)
                    return self._add(name, "refuted", "z3", "proved", t, f"nonzero: {e}", cands)
                return self._add(name, "undecided", "z3", "proved", t, r,
                                 self._numeric_cands(e, case, hyps))
        except Exception:
            return self._add(name, "undecided", "ring", "proved", t, traceback.format_exc())
        return self._add(name, "refuted", "ring", "proved", t, f"nonzero: {e}",
                         self._numeric_cands(e, case))

    def implies(self, name, hyps, goal, case=None):
        """hyps => goal."""
        t = time.time()
        try:
            goal = sympy.S(goal) if not isinstance(goal, bool) else (
                sympy.true if goal else sympy.false)
            r, m = smt.sat(list(hyps) + [sympy.Not(goal)], True)
        except Exception:
            return self._add(name, "undecided", "z3", "proved", t, traceback.format_exc())
        if r == "unsat":
            return self._add(name, "discharged", "z3", "proved", t)
        if r == "sat":
            cands = []
            if case is not None:
                cands = [case(_fill(m, goal, hyps))]
            return self._add(name, "refuted", "z3", "proved", t, f"model {m} of not({goal})", cands)
        cands = self._numeric_cands(None, case, tuple(hyps) + (sympy.Not(goal),)) if case else []
        return self._add(name, "undecided", "z3", "proved", t, r, cands)

    def ok(self, name, cond, detail="", case=None, backend="evaluation"):
        """A closed obligation (no free symbol left): evaluated exactly."""
        t = time.time()
        c = bool(cond)
        cands = [] if c or case is None else [case] if isinstance(case, dict) else list(case)
        return self._add(name, "discharged" if c else "refuted", backend, "proved", t, detail, cands)

    def bounded(self, name, cond, detail="", case=None):
        """An instance of a bounded stand-in: never counted as proved."""
        t = time.time()
        c = bool(cond)
        return self._add(name, "discharged" if c else "refuted", "execution", "bounded", t, detail,
                         [] if c or case is None else [case])

    def undecided(self, name, why, cands=None, kind="proved"):
        return self._add(name, "undecided", "engine", kind, time.time(), why, cands)


def _fill(m, *things):
    m = dict(m or {})
    fs = set()
    for th in things:
        for x in (th if isinstance(th, (list, tuple)) else [th]):
            fs |= getattr(x, "free_symbols", set())
    for s in fs:
        if m.get(s.name) is None:
            m[s.name] = sympy.Integer(0)
    return m


# ---------------------------------------------------------------- unit runner
_MOD = None
_executed = set()


def _trace_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "pyvc")
    except ValueError:
        return
    base = os.path.join(env.REPO, "symfem")

    def start(code, off):
        if code.co_filename.startswith(base):
            _executed.add(code.co_filename[len(base) + 1:-3].replace("/", ".") + ":"
                          + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def _run_unit(i, tier):
    u = _MOD.units(tier)[i]
    rec = Rec(u[0], tier)
    t = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0
    engine.E.decisions = engine.E.forks = 0
    _trace_on()
    try:
        u[1](rec, *u[2:])
    except BaseException:
        tb = traceback.format_exc()
        rec.undecided("completes", tb, cands=_MOD.fallback(u) if hasattr(_MOD, "fallback") else None)
    return {"unit": u[0], "obs": rec.obs, "covers": rec.covers, "t": time.time() - t,
            "stats": dict(smt.STATS), "forks": engine.E.forks, "decisions": engine.E.decisions,
            "functions": sorted(f for f in _executed if "<" not in f)}


def run_replay(prop, case, timeout=240):
    """Runs one case on the original (uninstrumented) code; (violated, output)."""
    d = os.path.join(env.SCRATCH, "replay")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, f"{os.getpid()}-{random.getrandbits(40)}.json")
    with open(fn, "w") as f:
        json.dump({"property": prop, "case": case}, f)
    try:
        p = subprocess.run([PY, os.path.join(env.VERIF, "replay.py"), fn], capture_output=True,
                           text=True, timeout=timeout, cwd=env.VERIF)
        return p.returncode == 1, p.stdout + p.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return False, "replay timed out"


def load_known():
    fn = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.isfile(fn):
        return []
    with open(fn) as f:
        return json.load(f).get("known", [])


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(i) for i in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


def main(prop):
    global _MOD
    t0 = time.time()
    from . import loader

    loader.install()
    import symfem  # noqa: F401
    import symfem.create, symfem.basis_functions, symfem.mappings, symfem.moments  # noqa: F401,E401

    _MOD = importlib.import_module(f"checks.{prop}")
    units = _MOD.units(env.TIER)
    only = os.environ.get("PYVC_ONLY")
    workers = int(os.environ.get("PYVC_JOBS", "8"))
    budget = float(os.environ.get("PYVC_BUDGET", "780" if env.TIER == "quick" else "7200"))
    results = []
    ctx = mp.get_context("fork")
    idx = [i for i in range(len(units)) if not only or re.search(only, units[i][0])]
    lost = []
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, max_tasks_per_child=None) as ex:
        futs = {ex.submit(_run_unit, i, env.TIER): i for i in idx}
        try:
            for f in cf.as_completed(futs, timeout=budget):
                try:
                    results.append(f.result())
                except Exception as e:
                    lost.append((units[futs[f]][0], repr(e)))
        except cf.TimeoutError:
            for f, i in futs.items():
                if not f.done():
                    lost.append((units[i][0], "time budget exhausted"))
            for p in list(ex._processes.values()):
                p.kill()
    for name, why in lost:
        print(f"  LOST {name}: {why}")
        results.append({"unit": name, "obs": [{
            "name": name + "/completes", "status": "undecided", "backend": "engine",
            "kind": "proved", "t": 0, "detail": why, "cands": []}], "covers": 0, "t": 0,
            "stats": {}, "forks": 0, "decisions": 0, "functions": []})
    return finish(prop, results, t0)


def finish(prop, results, t0):
    results.sort(key=lambda r: r["unit"])
    obs = [o for r in results for o in r["obs"]]
    proved = [o for o in obs if o["kind"] == "proved"]
    bnd = [o for o in obs if o["kind"] == "bounded"]
    bad = [o for o in obs if o["status"] != "discharged"]
    level = _MOD.LEVEL
    known = [k for k in load_known() if k["property"] == prop]
    rc = 0
    nviol = 0
    if not any(o["status"] == "discharged" for o in obs):
        print(f"no obligation was generated for {prop}: refusing to report success")
        rc = 3
    # group failures by unit; replay candidates until one is confirmed
    shown = set()
    reported = []
    tdeadline = time.time() + float(os.environ.get("PYVC_REPLAY_BUDGET", "90"))
    knownhits = {}
    for o in bad:
        k = next((k for k in known if re.fullmatch(k["obligation"], o["name"])), None)
        if k is not None:
            knownhits.setdefault(k["obligation"], (k, []))[1].append(o)
            continue
        reported.append(o)
    for k, os_ in knownhits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    reported.sort(key=lambda o: (o["status"] != "refuted", not o["cands"]))
    confirmed = None
    tried = []
    for o in reported:
        if confirmed or time.time() > tdeadline:
            break
        for case in o["cands"][:4]:
            v, out = run_replay(prop, jsonable(case))
            tried.append((o["name"], jsonable(case), v))
            if v:
                confirmed = (o, jsonable(case), out)
                break
            if time.time() > tdeadline:
                break
    if reported:
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        fn = os.path.join(env.VERIF, "replays", f"{prop}.json")
        data = {"property": prop, "failed_obligations": [
            {k: o[k] for k in ("name", "status", "backend", "kind", "detail")} for o in reported][:60],
            "how_to_replay": f"{PY} {env.VERIF}/replay.py {fn}"}
        if confirmed:
            data["obligation"], data["case"], data["output"] = (
                confirmed[0]["name"], confirmed[1], confirmed[2])
        else:
            data["tried"] = tried[:20]
        with open(fn, "w") as f:
            json.dump(data, f, indent=1)
        for o in reported[:12]:
            print(f"  {o['status'].upper()} {o['name']} [{o['backend']}] "
                  f"{o['detail'].strip().splitlines()[-1] if o['detail'].strip() else ''}"[:400])
        print(f"VIOLATION property={prop} replay={fn}"
              + ("" if confirmed else " no-failing-input-found"))
        nviol = len(reported)
        rc = 1
    by = {}
    for o in proved:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    functions = sorted({f for r in results for f in r["functions"]})
    trusted = list(getattr(_MOD, "TRUSTED", [])) + [
        "CPython, sympy's exact arithmetic, differentiation and substitution (dependency, contract assumed)",
        "z3; pyvc (engine, loader, ring normaliser)",
    ]
    cov = {
        "obligations": len(proved),
        "discharged": sum(o["status"] == "discharged" for o in proved),
        "discharged_by_backend": by,
        "bounded_obligations": len(bnd),
        "bounded_discharged": sum(o["status"] == "discharged" for o in bnd),
        "bounds": getattr(_MOD, "BOUNDS", "none"),
        "checker_cmd": f"{PY} run.py {prop}",
        "trusted_base": trusted,
        "units": len(results),
        "path_forks": sum(r["forks"] for r in results),
        "decisions": sum(r["decisions"] for r in results),
        "vacuity_covers": sum(r["covers"] for r in results),
        "z3_calls": sum(r["stats"].get("z3_calls", 0) for r in results),
        "z3_time_s": round(sum(r["stats"].get("z3_time", 0) for r in results), 2),
        "ring_time_s": round(sum(r["stats"].get("ring_time", 0) for r in results), 2),
        "unit_time_s": round(sum(r["t"] for r in results), 2),
        "functions_under_contract": functions,
        "known_findings_matched": [k["obligation"] for k, _ in knownhits.values()],
        "samples": [o["name"] for o in obs[:: max(1, len(obs) // 12)]][:14],
    }
    if level != "proof":
        cov["evaluations"] = len(obs)
        cov["distinct_nontrivial"] = len({o["name"] for o in obs})
        cov["rule"] = getattr(_MOD, "RULE", "one case per named obligation")
        cov["explanation"] = getattr(_MOD, "EXPLANATION", "")
    ev = {"property": prop, "tier": env.TIER, "seed": env.SEED, "level": level, "coverage": cov,
          "assumptions": list(getattr(_MOD, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged {by}, "
          f"{cov['bounded_discharged']}/{cov['bounded_obligations']} bounded, "
          f"{len(results)} units, {ev['wall_s']} s")
    if os.environ.get("PYVC_SLOW"):
        for r in sorted(results, key=lambda r: -r["t"])[:15]:
            print(f"   {r['t']:.1f}s {r['unit']}")
    return rc
