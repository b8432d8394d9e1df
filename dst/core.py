"""
Deterministic scheduler.

Every simulated process ("rank") is a Python thread, but only one thread ever
runs: the one holding the baton. All decisions - which rank runs next, when a
message is delivered, whether a send is eager, whether a collective
synchronises - are taken by Sim.choose(), from one seeded generator, and
recorded. Replaying the record replays the execution.
"""
import _thread
import hashlib
import random
import sys
import threading


class SimKilled(BaseException):
    """Unwinds a simulated process which is being ended"""


class SimAbort(SimKilled):
    """Raised in the process which called MPI_Abort"""


class SimViolation(BaseException):
    """The code under test used MPI (or I/O) in a way that real systems punish"""
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class SimUnsupported(BaseException):
    """The code under test used something the simulator does not model"""


RUN, BLOCKED, DONE = 0, 1, 2

class Proc:
    __slots__ = ("rank", "lock", "state", "ready", "what", "fn", "result", "exc", "exc_tb",
                 "nops", "thread", "out", "err", "local", "argv", "modules", "nfault", "finalized",
                 "consec", "prio", "exited", "plain_io")

    def __init__(self, rank):
        self.rank = rank
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = RUN
        self.ready = None
        self.what = "start"
        self.fn = None
        self.result = None
        self.exc = None
        self.exc_tb = None
        self.nops = 0
        self.thread = None
        self.out = []
        self.err = []
        self.local = {}
        self.argv = None
        self.modules = None
        self.nfault = {}
        self.finalized = False
        self.consec = 0
        self.prio = 0
        self.exited = False
        self.plain_io = False


_tls = threading.local()

def current():
    """(sim, proc) of the calling thread, or (None, None)"""
    return getattr(_tls, "sp", (None, None))


DEFAULT_CFG = dict(
    policy="random",      # random | fair | pct | sticky | starve
    starve=0,             # rank which runs only if nothing else can
    pct_depth=3,          # priority change points (pct)
    p_switch=1.0,         # probability of rescheduling at a non-blocking operation
    p_eager=0.5,          # probability that a blocking send returns before it is matched
    p_sync=0.3,           # probability that a collective synchronises all ranks
    p_late_read=0.5,      # probability that a send buffer is read late
    p_late_write=0.5,     # probability that a posted receive is only filled at completion
    reorder_reduce=True,  # combine reduction contributions in any order
    poison=0xA5,          # garbage in uninitialised memory
    max_steps=60000,
)


class Sim:
    def __init__(self, nranks, seed=0, trace=None, cfg=None, faults=None):
        self.cfg = dict(DEFAULT_CFG)
        if cfg:
            self.cfg.update(cfg)
        self.nranks = nranks
        self.rng = random.Random(seed)
        self.replay = list(trace) if trace is not None else None
        self.rpos = 0
        self.trace = []
        self.procs = [Proc(r) for r in range(nranks)]
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.steps = 0
        self.clock = 0.0
        self.hash = hashlib.blake2b(digest_size=12)
        self.log = None            # list if the event log is wanted
        self.stopping = False
        self.aborted = None        # (rank, code)
        self.failed = None         # first rank which died without MPI_Abort
        self.violation = None      # (kind, msg)
        self.unsupported = None
        self.net = []              # objects with pending(): list of deliverable events
        self.faults = faults or []   # list of dicts
        self.fault_hits = {}       # kind -> count
        self.probes = {}
        self.counts = {}
        self.switch_hooks = []
        self.mpi = None
        self.live = {}             # (rank, kind of handle) -> number not freed
        self.stop_on_failure = True
        self.policy_state()

    # ---- decisions -----------------------------------------------------
    def policy_state(self):
        if self.cfg["policy"] == "pct":
            order = list(range(self.nranks))
            self.rng.shuffle(order)
            for p, q in zip(self.procs, order):
                p.prio = q
            self.change = sorted(self.rng.randrange(1, 400) for _ in range(self.cfg["pct_depth"]))

    def choose(self, n, kind="", weight=None):
        """Pick one of n alternatives; 0 is the plainest one"""
        if n <= 1:
            return 0
        if self.replay is not None:
            if self.rpos < len(self.replay):
                v = self.replay[self.rpos] % n
            else:
                v = 0
            self.rpos += 1
        elif weight is not None:
            v = 1 if self.rng.random() < weight else 0
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v

    def coin(self, p, kind=""):
        """True with probability p; False is the plain outcome"""
        return self.choose(2, kind, weight=p) == 1

    # ---- log -------------------------------------------------------------
    def event(self, rank, what):
        self.hash.update(("%d %s\n" % (rank, what)).encode())
        if self.log is not None:
            self.log.append((rank, what))

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def handle(self, kind, n):
        me = current()[1]
        k = (me.rank if me is not None else -1, kind)
        self.live[k] = self.live.get(k, 0) + n

    def census(self, rank):
        return {k[1]: v for k, v in self.live.items() if k[0] == rank and v}

    def hit(self, kind, n=1):
        self.fault_hits[kind] = self.fault_hits.get(kind, 0) + n

    def probe(self, key, n=1):
        self.probes[key] = self.probes.get(key, 0) + n

    # ---- scheduling --------------------------------------------------------
    def _deliveries(self):
        res = []
        for n in self.net:
            res.extend(n.pending())
        return res

    def _runnable(self):
        res = []
        for p in self.procs:
            if p.state == RUN or (p.state == BLOCKED and p.ready()):
                res.append(p)
        return res

    def _pick(self, me):
        """Choose the next process to run, delivering messages on the way"""
        while True:
            self.steps += 1
            self.clock += 1e-5
            if self.steps > self.cfg["max_steps"]:
                raise SimViolation("livelock", "no end after %d scheduling steps; %s" % (self.steps, self.where()))
            run = self._runnable()
            dlv = self._deliveries()
            if not run and not dlv:
                if all(p.state == DONE for p in self.procs):
                    return None
                raise SimViolation("deadlock", self.where())
            pol = self.cfg["policy"]
            if self.replay is None and pol != "random":
                c = self._policy_pick(me, run, dlv, pol)
                # express as an index into the canonical order so it can be replayed
                cand = self._order(me, run, dlv)
                v = cand.index(c)
                if len(cand) > 1:
                    self.trace.append(v)
            else:
                cand = self._order(me, run, dlv)
                c = cand[self.choose(len(cand), "sched")]
            if isinstance(c, Proc):
                return c
            c.deliver()

    def _order(self, me, run, dlv):
        if me is not None and me in run and me.consec < 300:
            run = [me] + [p for p in run if p is not me]
        elif me is not None and me in run:
            return [p for p in run if p is not me] + dlv + [me]
        return run + dlv

    def _policy_pick(self, me, run, dlv, pol):
        rng = self.rng
        # somebody spinning must not keep everybody else away for ever
        if me is not None and me.consec >= 300 and (len(run) > 1 or dlv):
            run = [p for p in run if p is not me]
        if pol == "sticky":
            if me is not None and me in run and rng.random() < 0.9:
                return me
            return rng.choice(run + dlv)
        if pol == "fair":
            if dlv:
                return dlv[0]
            last = me.rank if me is not None else -1
            for k in range(1, self.nranks + 1):
                p = self.procs[(last + k) % self.nranks]
                if p in run:
                    return p
        if pol == "starve":
            rest = [p for p in run if p.rank != self.cfg["starve"]]
            # messages towards and from the slow rank are slow too
            if rest:
                return rng.choice(rest + dlv) if dlv else rng.choice(rest)
            if dlv and rng.random() < 0.5:
                return rng.choice(dlv)
            return rng.choice(run + dlv)
        if pol == "pct":
            while self.change and self.steps > self.change[0]:
                self.change.pop(0)
                if run:
                    max(run, key=lambda p: p.prio).prio = -self.steps
            if dlv and (not run or rng.random() < 0.3):
                return rng.choice(dlv)
            return max(run, key=lambda p: p.prio)
        return rng.choice(run + dlv)

    def where(self):
        return "; ".join("rank %d: %s" % (p.rank, {RUN: "runnable (%s)", BLOCKED: "blocked in %s", DONE: "finished (%s)"}[p.state] % p.what)
                         for p in self.procs)

    def _activate(self, p):
        if p.state == BLOCKED:
            p.state = RUN
            p.ready = None
        if p.modules:
            sys.modules.update(p.modules)
        if p.argv is not None:
            sys.argv = p.argv
        for h in self.switch_hooks:
            h(p)

    def _stop(self):
        """Start ending every process"""
        self.stopping = True

    def _switch(self, me):
        """Give the baton away; returns when it comes back"""
        if self.stopping:
            raise SimKilled()
        try:
            nxt = self._pick(me)
        except SimViolation as v:
            if self.violation is None:
                self.violation = (v.kind, v.msg)
            self.stopping = True
            raise SimKilled()
        if nxt is me:
            me.consec += 1
            if me.state == BLOCKED:
                me.state = RUN
                me.ready = None
            return
        me.consec = 0
        nxt.consec = 0
        self._activate(nxt)
        phil = self._release_phil()
        nxt.lock.release()
        me.lock.acquire()
        self._acquire_phil(phil)
        if self.stopping:
            raise SimKilled()

    phil = None

    def _release_phil(self):
        n = 0
        if self.phil is not None:
            while self.phil._is_owned():
                self.phil.release()
                n += 1
        return n

    def _acquire_phil(self, n):
        for _ in range(n):
            self.phil.acquire()

    def yield_(self, me, what):
        """A point where another process may run"""
        if self.stopping:
            raise SimKilled()
        me.what = what
        if self.cfg["p_switch"] >= 1.0 or self.coin(self.cfg["p_switch"]):
            self._switch(me)

    def block(self, me, ready, what):
        """Wait until ready() is true"""
        if self.stopping:
            raise SimKilled()
        me.what = what
        if ready():
            return
        while True:
            me.state = BLOCKED
            me.ready = ready
            self._switch(me)
            if ready():
                return

    # ---- faults ------------------------------------------------------------
    def fault_point(self, me, site, detail=""):
        """
        Count this visit to a fault site; returns the planned fault (a dict)
        which is due now, or None.
        """
        n = me.nfault.get(site, 0)
        me.nfault[site] = n + 1
        for f in self.faults:
            if f["site"] == site and f["rank"] == me.rank and f["nth"] == n and not f.get("fired"):
                f["fired"] = True
                self.hit(f["kind"])
                self.event(me.rank, "FAULT %s %s %s" % (f["kind"], site, detail))
                if f["kind"] == "kill" and self.on_death is not None:
                    self.on_death()
                return f
        return None

    # called when the job is about to be ended by a failure, before anything is unwound
    on_death = None
    # files opened, if somebody wants to know; order of directory listings, if the simulator chooses it
    opened = None
    listing = None
    # whether every use of a file is a point where another process may run
    io_yield = False

    # ---- running -----------------------------------------------------------
    def _thread_main(self, p):
        p.lock.acquire()
        _tls.sp = (self, p)
        try:
            if not self.stopping:
                if self.thread_init is not None:
                    self.thread_init(self, p)
                p.result = p.fn(p)
                p.what = "returned"
        except SimAbort:
            pass
        except SimKilled:
            pass
        except SimViolation as v:
            if self.violation is None and not self.stopping:
                self.violation = (v.kind, "rank %d: %s" % (p.rank, v.msg))
            self.stopping = True
        except SimUnsupported as u:
            if self.unsupported is None and not self.stopping:
                self.unsupported = str(u)
            self.stopping = True
        except BaseException as e:
            import traceback
            p.exc = e
            p.exc_tb = traceback.format_exc()
            p.what = "raised %s" % type(e).__name__
            e.__traceback__ = None
            e.__context__ = None
            if not self.stopping and self.stop_on_failure and not (isinstance(e, SystemExit) and p.finalized):
                # a process which dies takes the job with it (mpirun)
                if self.failed is None:
                    self.failed = p.rank
                self.stopping = True
        finally:
            _tls.sp = (None, None)
            p.state = DONE
            p.exited = True
            p.fn = None
            self._leave(p)

    def _leave(self, p):
        """The process has ended: pass the baton on"""
        while True:
            if self.stopping:
                rest = [q for q in self.procs if not q.exited]
                if not rest:
                    self.main_lock.release()
                    return
                q = rest[0]
                self._activate(q)
                q.lock.release()
                return
            try:
                nxt = self._pick(None)
            except SimViolation as v:
                if self.violation is None:
                    self.violation = (v.kind, v.msg)
                self.stopping = True
                continue
            if nxt is None:
                self.main_lock.release()
                return
            self._activate(nxt)
            nxt.lock.release()
            return

    thread_init = None

    def run(self, fns):
        """Run one function per rank to completion"""
        for p, fn in zip(self.procs, fns):
            p.fn = fn
        if self.cfg["policy"] == "starve" and self.nranks > 1:
            self.hit("rank stalled throughout")
        elif self.cfg["policy"] == "pct" and self.nranks > 1:
            self.hit("ranks strictly prioritised")
        for p in self.procs:
            _pool.submit(self._thread_main, p)
        try:
            first = self._pick(None)
        except SimViolation as v:
            self.violation = (v.kind, v.msg)
            self.stopping = True
            first = self.procs[0]
        self._activate(first)
        first.lock.release()
        self.main_lock.acquire()
        return self

    def abort(self, me, code):
        if self.aborted is None:
            self.aborted = (me.rank, code)
        self.event(me.rank, "ABORT %s" % code)
        if self.on_death is not None:
            self.on_death()
        self.stopping = True
        raise SimAbort()

    @property
    def digest(self):
        return self.hash.hexdigest()


class _Pool:
    """Threads are reused between runs"""
    def __init__(self):
        self.idle = []

    def submit(self, fn, arg):
        if self.idle:
            w = self.idle.pop()
        else:
            w = _Worker(self)
        w.fn, w.arg = fn, arg
        w.go.release()


class _Worker:
    def __init__(self, pool):
        self.pool = pool
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            fn, arg = self.fn, self.arg
            self.fn = self.arg = None
            # become available again before the run can end
            fn(arg)
            fn = arg = None
            self.pool.idle.append(self)

_pool = _Pool()
