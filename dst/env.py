"""
Prepares a process for simulation: the stub MPI, private copies of the virgo
modules for every rank, captured standard streams, virtual clock, poisoned
allocator.
"""
import importlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VIRGODC_REPO", "/repo")
MAXRANKS = 20

sys.dont_write_bytecode = True

class HarnessError(Exception):
    pass

def build_native():
    so = os.path.join(VERIF, "build", "simalloc.so")
    src = os.path.join(VERIF, "dst", "simalloc.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        subprocess.run([os.path.join(VERIF, "setup.sh")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.join(VERIF, "build") not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, "build"))

_ready = False
_hdf5 = False
_scratch_base = None
_nrun = 0
rank_modules = []

def scratch_base():
    """A directory for everything the simulated processes write; made once, removed when the check ends"""
    global _scratch_base
    if _scratch_base is None:
        import atexit
        import shutil
        import tempfile
        root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch_base = tempfile.mkdtemp(prefix="dst-", dir=root)
        owner = os.getpid()
        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_scratch_base, ignore_errors=True)
        atexit.register(clean)
    return _scratch_base

class rundir:
    """A fresh directory for one run"""
    def __enter__(self):
        global _nrun
        _nrun += 1
        self.path = os.path.join(scratch_base(), "%d-%d" % (os.getpid(), _nrun))
        os.mkdir(self.path)
        return self.path
    def __exit__(self, *a):
        import shutil
        if _hdf5:
            from . import h5
            h5.cleanup()
        shutil.rmtree(self.path, ignore_errors=True)
        return False
CORE_MODULES = ["virgo.mpi.parallel_sort", "virgo.mpi.parallel_hdf5", "virgo.mpi.util", "virgo.mpi.errchk",
                "virgo.mpi.gather_array", "virgo.mpi.merger_tree"]
simalloc = None

class _Stream:
    """Collects what each simulated process prints"""
    def __init__(self, real, which):
        self.real = real
        self.which = which
        self.encoding = "utf-8"
    def write(self, s):
        from .core import current
        sim, me = current()
        if me is None:
            return self.real.write(s)
        if sim.faults:
            f = sim.fault_point(me, "std" + self.which)
            if f is not None:
                if f["kind"] == "interrupt":
                    raise KeyboardInterrupt()
                if f["kind"] == "kill":
                    from .core import SimKilled
                    sim.stopping = True
                    raise SimKilled()
                raise OSError(f.get("errno", 28), os.strerror(f.get("errno", 28)))
        q = getattr(me, self.which)
        if len(q) < 2000:
            q.append(s)
        return len(s)
    def flush(self):
        from .core import current
        if current()[1] is None:
            self.real.flush()
    def isatty(self):
        return False
    def fileno(self):
        return self.real.fileno()

def _virtual_time():
    from . import core
    real_time, real_sleep, real_perf, real_mono = time.time, time.sleep, time.perf_counter, time.monotonic
    def vtime():
        sim, me = core.current()
        return real_time() if sim is None else 1.0e9 + sim.clock
    def vperf():
        sim, me = core.current()
        return real_perf() if sim is None else sim.clock
    def vsleep(s):
        sim, me = core.current()
        if sim is None:
            return real_sleep(s)
        end = sim.clock + s
        sim.event(me.rank, "sleep %g" % s)
        sim.yield_(me, "sleep")
        if sim.clock < end:
            sim.clock = end
    time.time, time.sleep, time.perf_counter = vtime, vsleep, vperf

def prepare(extra_modules=(), hdf5=False):
    """Idempotent; import the code under test once per simulated rank"""
    global _ready, simalloc
    if _ready:
        return
    _ready = True
    os.environ["VIRGODC_SIM"] = "1"
    build_native()
    pydir = os.path.join(REPO, "python")
    if pydir in sys.path:
        sys.path.remove(pydir)
    sys.path.insert(0, pydir)
    import numpy
    import h5py
    import simalloc as sa
    simalloc = sa
    from . import mpi, core
    mpi.install()
    from h5py._objects import phil
    core.Sim.phil = phil
    if hdf5:
        global _hdf5
        from . import h5
        h5.install()
        _hdf5 = True
        scratch_base()
    names = CORE_MODULES + list(extra_modules)
    for r in range(MAXRANKS):
        for k in [k for k in sys.modules if k == "virgo" or k.startswith("virgo.")]:
            del sys.modules[k]
        mods = {}
        try:
            for n in names:
                importlib.import_module(n)
        except BaseException as e:
            raise HarnessError("cannot import the code under test: %s: %s" % (type(e).__name__, e))
        mods = {k: v for k, v in sys.modules.items() if k == "virgo" or k.startswith("virgo.")}
        src = mods["virgo.mpi.parallel_sort"].__file__
        if not os.path.realpath(src).startswith(os.path.realpath(pydir)):
            raise HarnessError("imported virgo from %s" % src)
        rank_modules.append(mods)
    sys.stdout = _Stream(sys.stdout, "out")
    sys.stderr = _Stream(sys.stderr, "err")
    _virtual_time()

def V(name):
    """The calling rank's copy of a virgo module"""
    return sys.modules["virgo." + name]

POISON = {0: (0, 0xA5), 1: (1, 0xFF), 2: (2, 0x7F), 3: (0, 0x00), 4: (0, 0xFF), 5: (0, 0x01)}

def new_sim(case, log=False, scratch=None):
    """A simulation for a case: keys n, sseed, cfg, trace, faults, chunk"""
    from . import core, mpi
    faults = [dict(f) for f in case.get("faults", [])]
    for f in faults:
        f.pop("fired", None)
    s = core.Sim(case["n"], seed=case.get("sseed", 0), trace=case.get("trace"), cfg=case.get("cfg"), faults=faults)
    if log:
        s.log = []
    mpi.attach(s)
    if _hdf5:
        from . import h5
        h5.attach(s, scratch)
    s.scratch = scratch
    for p in s.procs:
        p.modules = rank_modules[p.rank]
    m, f = POISON[case.get("cfg", {}).get("poisonmode", 0)]
    simalloc.seed(case.get("sseed", 0) & 0xffffffff, m, f)
    simalloc.huge(bool(case.get("huge")))
    s.thread_init = _thread_init
    chunk = case.get("chunk")
    if chunk:
        os.environ["VIRGODC_SIM_MAX_MESSAGE_BYTES"] = str(chunk)
    else:
        os.environ.pop("VIRGODC_SIM_MAX_MESSAGE_BYTES", None)
    return s

def _thread_init(sim, p):
    simalloc.enable()

class stepmonitor:
    """
    Bounds the Python-level loop iterations a process may make between two
    simulator operations, so that a loop which never ends is found without a
    real clock. Costly: used only to confirm a suspected hang.
    """
    LIMIT = 4000000
    def __enter__(self):
        from . import core
        mon = sys.monitoring
        mon.use_tool_id(2, "dst")
        self.state = [0, -1]
        st = self.state
        def jump(code, a, b):
            if b > a:
                return
            sim, me = core.current()
            if sim is None:
                return
            if sim.steps != st[1]:
                st[1] = sim.steps
                st[0] = 0
            st[0] += 1
            if st[0] > self.LIMIT:
                st[0] = 0
                raise core.SimViolation("nontermination", "loop without end in %s" % code.co_qualname)
        mon.register_callback(2, mon.events.JUMP, jump)
        mon.set_events(2, mon.events.JUMP)
        return self
    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(2, 0)
        mon.register_callback(2, mon.events.JUMP, None)
        mon.free_tool_id(2)
        return False
