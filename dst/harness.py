"""
Search over seeds, confirmation, minimisation, replay and evidence.
"""
import argparse
import copy
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import types

from . import env
from .env import VERIF, HarnessError

real_time = time.time
real_sleep = time.sleep

REPLAYS = os.path.join(VERIF, "replays")


class Violation(Exception):
    """The property is broken in this run"""
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls = cls
        self.msg = msg


class Check:
    """One property. Subclasses define gen, execute, shrink."""
    prop = None
    hdf5 = False
    modules = ()
    level = "exploration"
    quick_runs = 6000
    quick_s = 40
    thorough_s = 900
    runs_per_chunk = 8
    rule = ""
    real = ()
    stubs = ()
    faults_possible = ()
    assumptions = ()
    stuck_s = 45
    standalone = False        # does not run Python code of the tree under test

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, case, log=False):
        """Returns info dict(sim=..., nontrivial=bool, key=str); raises Violation"""
        raise NotImplementedError

    def shrink(self, case):
        return iter(())

    def nontrivial(self, case):
        return True

    def directed(self):
        """Fixed cases that are always run first"""
        return []

    def setup(self):
        pass

    def teardown(self):
        pass


def derive(*parts):
    return int.from_bytes(hashlib.blake2b("/".join(str(p) for p in parts).encode(), digest_size=7).digest(), "big")


def gen_cfg(rng, n, **over):
    """Swarm: every run has its own scheduling and network temperament"""
    pol = rng.choice(["random", "random", "pct", "pct", "sticky", "starve", "fair"])
    cfg = dict(policy=pol,
               starve=rng.randrange(n),
               pct_depth=rng.choice([0, 1, 2, 4]),
               p_switch=rng.choice([1.0, 1.0, 0.5, 0.1]),
               p_eager=rng.choice([0.0, 0.0, 0.5, 1.0]),
               p_sync=rng.choice([0.0, 0.2, 1.0]),
               p_late_read=rng.choice([0.0, 0.5, 1.0]),
               p_late_write=rng.choice([0.0, 0.5, 1.0]),
               poisonmode=rng.choice([0, 1, 2, 3, 4, 5]))
    cfg.update(over)
    return cfg


def sim_violation(sim, allow_exc=False):
    """Turn what went wrong in a simulation into a Violation (or HarnessError)"""
    if sim.unsupported:
        raise HarnessError("not modelled by the simulator: %s" % sim.unsupported)
    if sim.violation:
        kind, msg = sim.violation
        raise Violation(kind, msg)
    if allow_exc:
        return
    for p in sim.procs:
        if p.exc is not None:
            raise Violation("exception:%s" % type(p.exc).__name__, "rank %d raised %s: %s\n%s" % (p.rank, type(p.exc).__name__, p.exc, p.exc_tb))
    if sim.aborted:
        r, code = sim.aborted
        raise Violation("abort", "rank %d called Abort(%s): %s" % (r, code, "".join(sim.procs[r].out + sim.procs[r].err)[-400:]))
    for p in sim.procs:
        if p.what != "returned":
            raise Violation("no-result", "rank %d: %s" % (p.rank, p.what))


def info_of(sim, **kw):
    d = dict(digest=sim.digest, steps=sim.steps, clock=sim.clock, faults=dict(sim.fault_hits), probes=dict(sim.probes),
             counts=dict(sim.counts), trace=sim.trace, nontrivial=True)
    d.update(kw)
    return d


def run_one(check, case, log=False):
    """Returns (violation or None as dict, info)"""
    try:
        info = check.execute(case, log=log)
        return None, info
    except Violation as v:
        return dict(cls=v.cls, msg=v.msg), getattr(v, "info", None)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        # What the code under test handed back is not even of the kind its
        # documentation promises (a tuple for an array, an array of too few
        # dimensions ...), so that the oracle cannot read it. A name that is
        # gone from a module, on the other hand, says nothing about behaviour.
        if isinstance(e, AttributeError) and isinstance(getattr(e, "obj", None), types.ModuleType):
            raise
        return dict(cls="unusable-result:%s" % type(e).__name__, msg="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())), None


def make_case(check, seed, i, tier):
    d = check.directed()
    if i < len(d):
        return copy.deepcopy(d[i])
    rng = random.Random(derive(seed, check.prop, i))
    case = check.gen(rng, tier)
    return case


# ------------------------------------------------------------------ workers
def _worker(check, seed, tier, wid, nw, pipe_w, start, nruns, deadline, slot):
    import mmap
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    out = os.fdopen(pipe_w, "w")
    agg = dict(runs=0, steps=0, clock=0.0, faults={}, probes={}, counts={}, digests=set(), keys=set(), nontrivial=0, samples=[], slow=0)
    i = start + wid
    check.setup()
    try:
        while i < nruns and real_time() < deadline:
            slot[wid * 2] = i
            slot[wid * 2 + 1] = int(real_time())
            case = make_case(check, seed, i, tier)
            v, info = run_one(check, case)
            if v is not None:
                slot[wid * 2] = -1
                out.write(json.dumps(dict(t="violation", i=i, v=v)) + "\n")
                out.flush()
                break
            agg["runs"] += 1
            agg["steps"] += info["steps"]
            agg["clock"] += info["clock"]
            for k in ("faults", "probes", "counts"):
                for a, b in info[k].items():
                    agg[k][a] = agg[k].get(a, 0) + b
            agg["digests"].add(info["digest"])
            if info.get("nontrivial", True):
                agg["nontrivial"] += 1
                agg["keys"].add(info["digest"])
            if len(agg["samples"]) < 1 and info.get("nontrivial", True) and i >= len(check.directed()):
                agg["samples"].append(dict(run=i, case=case, steps=info["steps"], digest=info["digest"]))
            i += nw
        slot[wid * 2] = -1
        agg["digests"] = sorted(agg["digests"])
        agg["keys"] = sorted(agg["keys"])
        agg["next"] = i
        out.write(json.dumps(dict(t="done", agg=agg), default=str) + "\n")
    except HarnessError as e:
        slot[wid * 2] = -1
        out.write(json.dumps(dict(t="error", i=i, msg=str(e))) + "\n")
    except BaseException:
        slot[wid * 2] = -1
        out.write(json.dumps(dict(t="error", i=i, msg=traceback.format_exc())) + "\n")
    finally:
        out.flush()
        try:
            check.teardown()
        except Exception:
            pass
        out.close()
        os._exit(0)


def search(check, seed, tier, nworkers, nruns, deadline):
    """Run many seeds; returns (violations, aggregate, stuck, errors)"""
    import mmap
    import select
    import struct
    shm = mmap.mmap(-1, 16 * nworkers)
    slot = memoryview(shm).cast("q")
    procs = {}
    total = dict(runs=0, steps=0, clock=0.0, faults={}, probes={}, counts={}, digests=set(), keys=set(), nontrivial=0, samples=[])
    violations, errors, stuck = [], [], []

    def spawn(wid, start):
        r, w = os.pipe()
        slot[wid * 2] = -1
        slot[wid * 2 + 1] = int(real_time())
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            _worker(check, seed, tier, wid, nworkers, w, start, nruns, deadline, slot)
            os._exit(0)
        os.close(w)
        procs[wid] = [pid, r, b"", False]

    def finish(wid):
        pid, r, buf, _ = procs.pop(wid)
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        got = False
        for line in buf.decode().splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m["t"] == "violation":
                violations.append(m)
                got = True
            elif m["t"] == "error":
                errors.append(m)
                got = True
            elif m["t"] == "done":
                got = True
                a = m["agg"]
                for k in ("runs", "steps", "clock", "nontrivial"):
                    total[k] += a[k]
                for k in ("faults", "probes", "counts"):
                    for x, y in a[k].items():
                        total[k][x] = total[k].get(x, 0) + y
                total["digests"].update(a["digests"])
                total["keys"].update(a["keys"])
                total["samples"].extend(a["samples"])
        return got

    for wid in range(nworkers):
        spawn(wid, 0)
    respawns = 0
    while procs:
        fds = {p[1]: w for w, p in procs.items()}
        rd, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in rd:
            wid = fds[fd]
            data = os.read(fd, 1 << 16)
            if data:
                procs[wid][2] += data
            else:
                i = slot[wid * 2]
                got = finish(wid)
                if not got:
                    # died without a word (killed, or crashed in native code)
                    if i >= 0:
                        stuck.append((int(i), "died"))
                        respawns += 1
                        if respawns < 6 and not violations:
                            base = i - (i % nworkers) + nworkers
                            spawn(wid, base)
                    else:
                        errors.append(dict(i=-1, msg="worker died"))
        now = int(real_time())
        for wid in list(procs):
            i, t = slot[wid * 2], slot[wid * 2 + 1]
            if i >= 0 and now - t > check.stuck_s:
                pid = procs[wid][0]
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                finish(wid)
                stuck.append((int(i), "stuck"))
                respawns += 1
                if respawns < 6 and not violations:
                    base = i - (i % nworkers) + nworkers
                    spawn(wid, base)
        if violations or errors:
            # no need to look further
            for wid in list(procs):
                try:
                    os.kill(procs[wid][0], signal.SIGTERM)
                except ProcessLookupError:
                    pass
            for wid in list(procs):
                # drain
                try:
                    while True:
                        d = os.read(procs[wid][1], 1 << 16)
                        if not d:
                            break
                        procs[wid][2] += d
                except OSError:
                    pass
                finish(wid)
    return violations, total, stuck, errors


# ------------------------------------------------------------------ children
def in_child(fn, timeout):
    """Run fn() in a forked child, return ('ok', value) or ('timeout'|'died', None)"""
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            val = fn()
            data = json.dumps(val, default=str).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            try:
                sys.__stderr__.write(traceback.format_exc())
            except Exception:
                pass
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    end = real_time() + timeout
    status = "ok"
    while True:
        left = end - real_time()
        if left <= 0:
            status = "timeout"
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], min(left, 1))
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status == "ok" and st != 0:
        return "died", None
    if status == "ok":
        return "ok", json.loads(buf) if buf else None
    return status, None


def execute_isolated(check, case, timeout=60, monitored=False):
    """Run a case in a fresh child; returns dict(v=..., digest=..., trace=...)"""
    def fn():
        check.setup()
        try:
            if monitored:
                with env.stepmonitor():
                    v, info = run_one(check, case)
            else:
                v, info = run_one(check, case)
        finally:
            check.teardown()
        return dict(v=v, digest=(info or {}).get("digest"), trace=(info or {}).get("trace"))
    st, val = in_child(fn, timeout)
    if st != "ok":
        return dict(v=None, status=st, digest=None, trace=None)
    val["status"] = "ok"
    return val


# ------------------------------------------------------------------ minimise
def minimise(check, case, v, budget=45, monitored=False):
    """Greedy reduction which keeps the class of the violation"""
    t_end = real_time() + budget
    best = copy.deepcopy(case)
    cls = v["cls"]
    tries = [0]

    def attempt(c):
        tries[0] += 1
        r = execute_isolated(check, c, timeout=20 if monitored else 10, monitored=monitored)
        return r["v"] is not None and r["v"]["cls"] == cls

    def variants(c):
        simple = copy.deepcopy(c)
        simple["trace"] = []
        yield simple
        if c.get("trace") is None:
            yield c
            for k in (1, 2):
                d = copy.deepcopy(c)
                d["sseed"] = k
                yield d
        else:
            yield c

    progress = True
    while progress and real_time() < t_end:
        progress = False
        for cand in check.shrink(copy.deepcopy(best)):
            if real_time() > t_end:
                break
            for c in variants(cand):
                if attempt(c):
                    best = c
                    progress = True
                    break
            if progress:
                break
    if best.get("trace") is None:
        c = copy.deepcopy(best)
        c["trace"] = []
        if attempt(c):
            best = c
    # make the schedule explicit, then simplify it
    if best.get("trace") is None:
        r = execute_isolated(check, best, timeout=20, monitored=monitored)
        if r["v"] is not None and r["trace"] is not None:
            c = copy.deepcopy(best)
            c["trace"] = r["trace"]
            if attempt(c):
                best = c
    tr = best.get("trace")
    if tr:
        n = len(tr)
        while n > 0 and real_time() < t_end:
            c = copy.deepcopy(best)
            c["trace"] = best["trace"][:n // 2]
            if attempt(c):
                best = c
                n = n // 2
            else:
                break
        size = max(1, len(best["trace"]) // 2)
        while size >= 1 and real_time() < t_end:
            pos = 0
            while pos < len(best["trace"]) and real_time() < t_end:
                if any(best["trace"][pos:pos + size]):
                    c = copy.deepcopy(best)
                    c["trace"][pos:pos + size] = [0] * len(c["trace"][pos:pos + size])
                    if attempt(c):
                        best = c
                pos += size
            size //= 2
        while best["trace"] and best["trace"][-1] == 0:
            best["trace"].pop()
    return best, tries[0]


def violation_info(v, sim):
    """Attach the execution's record to a violation"""
    v.info = dict(digest=sim.digest, trace=list(sim.trace), log=["rank %d: %s" % e for e in sim.log or []])
    return v


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def describe(case, limit=4000):
    s = json.dumps(case)
    return case if len(s) < limit else json.loads(json.dumps({"summary": s[:limit]}))


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--digests", help="write 'run digest' lines to a file (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(sys.argv[2:])
    t0 = real_time()
    print("property %s tier %s VERIF_SEED %d" % (check.prop, args.tier, args.seed), flush=True)
    try:
        if not check.standalone:
            env.prepare(check.modules, check.hdf5)
        check.prepare() if hasattr(check, "prepare") else None
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2

    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        case = rp["case"]
        if args.log:
            def logged():
                check.setup()
                v, info = run_one(check, case, log=True)
                check.teardown()
                return (info or {}).get("log", [])
            for line in in_child(logged, 300)[1] or []:
                print(line)
        r = execute_isolated(check, case, timeout=300, monitored=rp.get("monitored", False))
        if r["v"] is not None:
            print(r["v"]["msg"])
            same = r["v"]["cls"] == rp["violation"]["cls"] and (r["digest"] == rp.get("digest") or rp.get("digest") is None)
            print("class %s, execution digest %s%s" % (r["v"]["cls"], r["digest"], "" if same else " (differs from the recorded one)"))
            print("VIOLATION property=%s replay=%s" % (check.prop, args.replay))
            return 1
        if r["status"] != "ok":
            print("HARNESS-ERROR: replay %s" % r["status"])
            return 2
        print("no violation")
        return 0

    if args.digests:
        nruns = args.runs or 100
        res = {}
        def one(lo, hi, step):
            check.setup()
            o = []
            try:
                for i in range(lo, hi, step):
                    v, info = run_one(check, make_case(check, args.seed, i, args.tier))
                    o.append((i, v["cls"] if v else info["digest"]))
            finally:
                check.teardown()
            return o
        nw = args.workers
        for w in range(nw):
            st, val = in_child(lambda: one(w, nruns, nw), 3600)
            for i, d in val or [(-1, st)]:
                res[i] = d
        with open(args.digests, "w") as f:
            for i in sorted(res):
                f.write("%d %s\n" % (i, res[i]))
        print("%d digests" % len(res))
        return 0

    if args.tier == "thorough":
        seconds = args.seconds or float(os.environ.get("VERIF_THOROUGH_S", check.thorough_s))
        nruns = args.runs or 10**9
    else:
        seconds = args.seconds or check.quick_s
        nruns = args.runs or check.quick_runs
    deadline = real_time() + seconds
    violations, total, stuck, errors = search(check, args.seed, args.tier, args.workers, nruns, deadline)
    t_search = real_time() - t0

    rc = 0
    final = None
    if not violations and stuck:
        # confirm suspected hangs without reference to a real clock
        for i, why in sorted(stuck)[:3]:
            case = make_case(check, args.seed, i, args.tier)
            r = execute_isolated(check, case, timeout=240, monitored=True)
            if r["v"] is not None:
                violations.append(dict(i=i, v=r["v"], monitored=True))
                break
            if r["status"] == "died":
                violations.append(dict(i=i, v=dict(cls="crash", msg="the process died in native code"), monitored=False, crash=True))
                break
            if r["status"] != "ok":
                errors.append(dict(i=i, msg="run %d neither finishes nor loops in Python (%s)" % (i, r["status"])))
    if violations:
        violations.sort(key=lambda m: m["i"])
        m = violations[0]
        case = make_case(check, args.seed, m["i"], args.tier)
        mon = m.get("monitored", False)
        if not m.get("crash"):
            best, tries = minimise(check, case, m["v"], budget=float(os.environ.get("VERIF_MINIMISE_S", "45")), monitored=mon)
            r = execute_isolated(check, best, timeout=240, monitored=mon)
            if r["v"] is None:
                best, r = case, execute_isolated(check, case, timeout=240, monitored=mon)
        else:
            best, tries, r = case, 0, dict(v=m["v"], digest=None)
        v = r["v"] or m["v"]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (check.prop, args.seed, m["i"]))
        with open(path, "w") as f:
            json.dump(dict(property=check.prop, verif_seed=args.seed, run=m["i"], monitored=mon, case=best, violation=v,
                           digest=r["digest"], minimisation_attempts=tries,
                           replay_cmd="./check %s --replay %s" % (check.prop, path)), f, indent=1)
        print("violation class %s in run %d (seed %d), minimised in %d executions" % (v["cls"], m["i"], args.seed, tries))
        print(v["msg"][:3000])
        final = dict(cls=v["cls"], run=m["i"], replay=path)
        rc = 1
    elif errors:
        print("HARNESS-ERROR: %s" % errors[0]["msg"])
        rc = 2
    wall = real_time() - t0

    for fnd in load_findings():
        if fnd["property"] == check.prop and fnd.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (check.prop, fnd["what"]))

    if not args.no_evidence:
        ev = dict(property=check.prop, tier=args.tier if args.tier in ("quick", "thorough") else "quick", seed=args.seed, level=check.level,
                  coverage=dict(
                      evaluations=total["runs"], distinct_nontrivial=len(total["keys"]),
                      rule=check.rule + " Distinct: by digest of the full event log (every MPI/IO operation of every rank, every message arrival and injected fault, in order).",
                      samples=[dict(s, case=describe(s["case"])) for s in sorted(total["samples"], key=lambda s: s["run"])[:2]],
                      seeds_per_run="one seed is one simulated run is one evaluation",
                      distinct_executions=len(total["digests"]),
                      runs_per_hour=int(total["runs"] / max(t_search, 1e-9) * 3600),
                      scheduling_steps=total["steps"],
                      simulated_seconds=round(total["clock"], 4),
                      faults_injected=total["faults"], fault_kinds_possible=list(check.faults_possible),
                      probes=total["probes"], operations=total["counts"],
                      components_real=list(check.real), components_stubbed=list(check.stubs),
                      suspected_hangs=len(stuck), harness_errors=len(errors)),
                  assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=1 if rc == 1 else 0)
        if final:
            ev["coverage"]["violation"] = final
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", check.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", check.prop + ".json"))
    print("%d runs, %d distinct executions, %d steps, %.3f simulated s, faults %s, %.1f s" % (
        total["runs"], len(total["digests"]), total["steps"], total["clock"], total["faults"], wall))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (check.prop, final["replay"]))
    elif rc == 0 and total["runs"] == 0:
        print("HARNESS-ERROR: no runs completed")
        rc = 2
    sys.stdout.flush()
    return rc
