import copy
import numpy as np
from .common import *
from dst import core


class Custom(Exception):
    pass


class Quiet(Exception):
    """An exception whose text cannot be produced"""
    def __str__(self):
        raise RuntimeError("no text")


EXC = {"ValueError": lambda t: ValueError(t), "KeyError": lambda t: KeyError(t), "OSError": lambda t: OSError(5, t),
       "MemoryError": lambda t: MemoryError(t), "AssertionError": lambda t: AssertionError(t), "Custom": lambda t: Custom(t),
       "KeyboardInterrupt": lambda t: KeyboardInterrupt(t), "ZeroDivisionError": lambda t: ZeroDivisionError(t),
       "StopIteration": lambda t: StopIteration(t), "RecursionError": lambda t: RecursionError(t), "Quiet": lambda t: Quiet(t)}

STEPS = ["barrier", "allreduce", "bcast", "gather", "ring", "local", "sleep", "split", "sort"]


GOOD = [["x"], ["x", "--n", "5"], ["y", "--flag"], ["--choice", "b", "z"], ["x", "--list", "1", "2"], ["x", "--f", "2.5", "--n=-3"],
        ["x y", "--name", "p%q"]]
BAD = [[], ["x", "--n", "abc"], ["x", "--nosuch"], ["x", "extra"], ["x", "--choice", "q"], ["x", "--list"], ["x", "--even", "3"],
       ["x", "--f"]]


class C08(MpiCheck):
    prop = "C08"
    fields = ("arg",)
    faults_possible = MPI_FAULTS + ["raise", "interrupt", "mpi-error", "memory", "stderr or stdout write fails"]
    rule = ("A run is one job in which a wrapped function works through generated communication steps and fails at a generated point on "
            "generated ranks (or not at all), or in which all ranks parse generated command lines. Non-trivial: more than one rank.")

    def gen(self, rng, tier):
        n = gen_n(rng, tier)
        case = dict(n=n, sseed=rng.randrange(2**32), cfg=gen_cfg(rng, n), layout=dict(kind="world", groups=[list(range(n))]))
        if rng.random() < 0.3:
            return self.gen_args(rng, case)
        case["what"] = "errchk"
        case["arg"] = [rng.randrange(100) for _ in range(n)]
        case["steps"] = [rng.choice(STEPS) for _ in range(rng.randrange(0, 8))]
        case["calls"] = rng.choice([1, 1, 2])
        case["nested"] = rng.random() < 0.2
        case["ret"] = rng.choice(["none", "tuple", "array", "false", "arg"])
        case["fail"] = []
        case["faults"] = []
        k = rng.random()
        if k < 0.5:
            for r in rng.sample(range(n), min(n, rng.choice([1, 1, 1, 2, n]))):
                case["fail"].append(dict(rank=r, at=rng.randrange(len(case["steps"]) + 1), exc=rng.choice(list(EXC)), call=rng.randrange(case["calls"])))
        elif k < 0.8:
            for r in rng.sample(range(n), min(n, rng.choice([1, 1, 1, 2]))):
                case["faults"].append(dict(site="mpi", rank=r, nth=rng.randrange(12), kind=rng.choice(["interrupt", "mpi-error", "memory"])))
        if (case["fail"] or case["faults"]) and rng.random() < 0.25:
            case["faults"].append(dict(site=rng.choice(["stderr", "stderr", "stdout"]), rank=(case["fail"] + case["faults"])[0]["rank"], nth=rng.randrange(3),
                                       kind=rng.choice(["stream-error", "interrupt"])))
        case["caught"] = rng.random() < 0.2
        return case

    def gen_args(self, rng, case):
        n = case["n"]
        case["what"] = "args"
        case["dup"] = rng.random() < 0.3
        good, bad = GOOD, BAD
        r0 = rng.choice(good) if rng.random() < 0.6 else rng.choice(bad)
        if rng.random() < 0.06:
            case["argv"] = [["--help"]] * n
            case["help"] = True
        else:
            case["argv"] = [r0] + [rng.choice([r0, r0, r0, [], rng.choice(good), rng.choice(bad)]) for _ in range(n - 1)]
            case["help"] = False
        case["explicit"] = rng.random() < 0.3
        case["split"] = None
        if n > 1 and not case["help"] and rng.random() < 0.35:
            # several communicators, each with its own parser
            case["split"] = [rng.randrange(min(n, 3)) for _ in range(n)]
            case["reverse"] = rng.random() < 0.3
            if rng.random() < 0.6:
                case["argv"] = [a if a in good else rng.choice(good) for a in case["argv"]]
        case["arg"] = [0] * n
        return case

    @staticmethod
    def parsers(case):
        """The ranks which use each parser, first the one whose arguments count"""
        n = case["n"]
        if not case.get("split"):
            return [list(range(n))]
        groups = [[r for r in range(n) if case["split"][r] == c] for c in sorted(set(case["split"]))]
        return [g[::-1] if case["reverse"] else g for g in groups]

    def drop_rank(self, c, r):
        if c["what"] == "args":
            if r == 0:
                return c
            del c["argv"][r]
            if c.get("split"):
                del c["split"][r]
        else:
            c["fail"] = [dict(f, rank=f["rank"] - (f["rank"] > r)) for f in c["fail"] if f["rank"] != r]
        return super().drop_rank(c, r)

    def shrink_data(self, case):
        if case.get("split"):
            yield dict(copy.deepcopy(case), split=None)
        if case["what"] == "errchk":
            for i in range(len(case["steps"])):
                c = copy.deepcopy(case)
                del c["steps"][i]
                c["fail"] = [dict(f, at=f["at"] - (f["at"] > i)) for f in c["fail"]]
                yield c
            for i in range(len(case["fail"])):
                if len(case["fail"]) > 1:
                    c = copy.deepcopy(case)
                    del c["fail"][i]
                    yield c
            for k, v in (("nested", False), ("caught", False), ("calls", 1), ("ret", "none")):
                if case[k] != v:
                    c = dict(copy.deepcopy(case), **{k: v})
                    for f in c["fail"]:
                        f["call"] = 0
                    yield c

    # ------------------------------------------------------------ errchk
    def run_errchk(self, case, log):
        from dst import mpi
        MPI = mpi.module
        check = self

        def work(comm, rank, call, *args, **kwargs):
            n = comm.Get_size()
            for i, s in enumerate(case["steps"] + [None]):
                for f in case["fail"]:
                    if f["rank"] == rank and f["at"] == i and f["call"] == call:
                        sim.hit("raise " + f["exc"])
                        raise EXC[f["exc"]]("failure-on-%d" % rank)
                if s == "barrier":
                    comm.Barrier()
                elif s == "allreduce":
                    comm.allreduce(rank)
                elif s == "bcast":
                    comm.bcast(rank, root=i % n)
                elif s == "gather":
                    comm.gather(rank, root=i % n)
                elif s == "ring":
                    comm.sendrecv(rank, dest=(rank + 1) % n, source=(rank - 1) % n)
                elif s == "sleep":
                    import time
                    time.sleep(1.0 + rank)
                elif s == "split":
                    c = comm.Split(rank % 2, rank)
                    c.allreduce(1)
                    c.Free()
                elif s == "sort":
                    V("mpi.parallel_sort").parallel_sort(np.array([3.0, rank, 1.0]), comm=comm)
                elif s == "local" and case["caught"]:
                    try:
                        raise ValueError("handled")
                    except ValueError:
                        pass
            seen[rank].append((args, kwargs))
            return rets[rank]

        n = case["n"]
        seen = [[] for _ in range(n)]
        rets = [dict(none=None, tuple=(1, [2], "x"), array=np.arange(3), false=False, arg=object())[case["ret"]] for _ in range(n)]

        def fn(p):
            mpi_errchk = V("mpi.errchk").mpi_errchk
            comm = MPI.COMM_WORLD
            f = mpi_errchk(work)
            if case["nested"]:
                g = f
                f = mpi_errchk(lambda *a, **k: g(*a, **k))
            res = []
            for call in range(case["calls"]):
                a = (case["arg"][p.rank], [p.rank])
                res.append((f(comm, p.rank, call, *a, key=a), a))
            return res
        sim = env.new_sim(case, log=log)
        sim.stop_on_failure = False
        sim.run([fn] * n)
        failed = any(sim.fault_hits.get(k) for k in sim.fault_hits if k.startswith("raise ")) or \
            any(sim.fault_hits.get(k) for k in ("interrupt", "mpi-error", "memory"))
        try:
            if sim.unsupported:
                sim_violation(sim)
            if failed:
                if sim.violation:
                    raise Violation("hang" if sim.violation[0] == "deadlock" else sim.violation[0],
                                    "a rank failed but the job was not aborted: %s" % sim.violation[1])
                if not sim.aborted:
                    raise Violation("no-abort", "a rank failed but the job ended without MPI_Abort: %s" % sim.where())
                r, code = sim.aborted
                if not isinstance(code, (int, np.integer)) or int(code) % 256 == 0:
                    raise Violation("abort-code", "MPI_Abort(%r)" % (code,))
                # the failing rank said why
                p = sim.procs[r]
                if not any(f.get("fired") and f["site"] != "mpi" for f in sim.faults) and not sim.fault_hits.get("raise Quiet"):
                    text = "".join(p.err) + "".join(p.out)
                    want = [f for f in case["fail"] if f["rank"] == r]
                    inject = [f for f in case["faults"] if f["rank"] == r]
                    if not text.strip():
                        raise Violation("not-reported", "rank %d aborted the job without a message" % r)
                    if want and not inject and "failure-on-%d" % r not in text:
                        raise Violation("not-reported", "the error is not in the output: %r" % text[-300:])
            else:
                sim_violation(sim)
                for p in sim.procs:
                    if len(p.result) != case["calls"] or any(x[0] is not rets[p.rank] for x in p.result):
                        raise Violation("return-value", "rank %d: return value changed" % p.rank)
                    if [s[0] for s in seen[p.rank]] != [x[1] for x in p.result] or any(s[1] != dict(key=s[0]) for s in seen[p.rank]):
                        raise Violation("arguments", "rank %d: arguments changed" % p.rank)
        except Violation as v:
            raise violation_info(v, sim)
        info = info_of(sim, nontrivial=case["n"] > 1)
        info["probes"]["jobs with a failing rank" if failed else "healthy jobs"] = 1
        return sim, info

    # ------------------------------------------------------------ arguments
    def run_args(self, case, log):
        from dst import mpi
        import argparse
        MPI = mpi.module
        n = case["n"]

        def even(s):
            v = int(s)
            if v % 2:
                raise argparse.ArgumentTypeError("%s is odd" % s)
            return v

        def define(parser):
            parser.add_argument("what")
            parser.add_argument("--n", type=int, default=1)
            parser.add_argument("--flag", action="store_true")
            parser.add_argument("--choice", choices=["a", "b"], default="a")
            parser.add_argument("--list", nargs="+", type=int)
            parser.add_argument("--f", type=float)
            parser.add_argument("--even", type=even)
            parser.add_argument("--name")
            return parser

        def fn(p):
            comm = MPI.COMM_WORLD
            if case["dup"]:
                comm = comm.Dup()
            if case.get("split"):
                comm = comm.Split(case["split"][p.rank], -p.rank if case["reverse"] else p.rank)
            parser = define(V("mpi.util").MPIArgumentParser(comm, prog="prog", description="d"))
            args = vars(parser.parse_args(list(case["argv"][p.rank])) if case["explicit"] else parser.parse_args())
            if case.get("split"):
                MPI.Finalize() # as mpi4py does at exit: ranks with invalid arguments wait for this
            return args
        sim = env.new_sim(case, log=log)
        sim.stop_on_failure = False
        import sys
        old = sys.argv
        for p in sim.procs:
            p.argv = ["prog"] + list(case["argv"][p.rank])
        try:
            sim.run([fn] * n)
        finally:
            sys.argv = old
        try:
            if sim.unsupported:
                sim_violation(sim)
            if sim.violation:
                raise Violation(sim.violation[0], "command lines %s: %s" % (case["argv"], sim.violation[1]))
            groups = self.parsers(case)
            bad = [g for g in groups if case["argv"][g[0]] in BAD]
            if not bad and not case["help"]:
                sim_violation(sim)
            for g in groups:
                if g in bad or case["help"]:
                    for r in g:
                        p = sim.procs[r]
                        if not isinstance(p.exc, SystemExit) and not (sim.aborted):
                            raise Violation("no-exit", "rank %d did not exit: %s %s" % (p.rank, p.what, p.exc_tb))
                    if g in bad:
                        if not "".join(sim.procs[g[0]].err).strip():
                            raise Violation("no-message", "rank 0 wrote no message to standard error")
                        for r in g[1:]:
                            if "".join(sim.procs[r].err).strip():
                                raise Violation("extra-message", "rank %d wrote %r" % (r, "".join(sim.procs[r].err)))
                elif not sim.aborted:
                    want = vars(define(argparse.ArgumentParser()).parse_args(list(case["argv"][g[0]])))
                    for r in g:
                        p = sim.procs[r]
                        if p.exc is not None:
                            raise Violation("exception", "rank %d: %s" % (r, p.exc_tb))
                        if p.result != want:
                            raise Violation("arguments", "rank %d got %s instead of %s" % (r, p.result, want))
        except Violation as v:
            raise violation_info(v, sim)
        info = info_of(sim, nontrivial=case["n"] > 1)
        info["probes"]["invalid command lines" if bad else "valid command lines"] = 1
        if len(groups) > 1:
            info["probes"]["jobs with several parsers"] = 1
        return sim, info

    def execute(self, case, log=False):
        sim, info = self.run_errchk(case, log) if case["what"] == "errchk" else self.run_args(case, log)
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info


CHECK = C08()
