"""The parallel directory hasher: whole jobs, their failures and what is left to a resumed job"""
import copy
import hashlib
import os
import shutil
import sqlite3
import sys
import types
from fnmatch import fnmatch

from dst import env, fio, sql
from dst.harness import Check, Violation, HarnessError, gen_cfg, sim_violation, info_of, violation_info
from .common import run_mpi, gen_n, MPI_FAULTS

SCRIPT = os.path.join(env.REPO, "consistency_check/hash/hash_dirs_mpi.py")
NAMES = ["a", "b", "a.txt", "b.txt", "c.dat", "data 1", "x[1].txt", ".hidden", "\u00fcn\u00ef.dat", "#note", "UNREADABLE", "hashes.txt", "out.txt",
         "z.hdf5", "sub", "sub.txt", "db.sqlite-journal", "-x"]
DIRS = ["sub", "d", "deep", "a", "x y", ".git", "sub2", "e.txt"]
PATTERNS = ["*.txt", "a*", "sub/*", "*", "./*.dat", "*/a*", "x[[]1].txt", "d/", "nothing", "[ab].txt", "sub/a.txt", "*/*/*", "UNREADABLE"]
ERRNOS = [5, 13, 2, 28, 116, 24]
BASES = ["abs", "abs", "base", "base", "./base/", "base/../base", "base/.", "."]
SITES = {"io.open": "open fails", "io.read": "read fails", "io.write": "write fails", "io.listdir": "directory listing fails",
         "io.readdir": "directory listing breaks off", "sql.open": "database open fails", "sql.read": "database read fails",
         "sql.write": "database write fails", "sql.truncate": "database truncate fails", "sql.unlink": "database journal delete fails",
         "stdout": "printing fails", "xattr": "attribute write fails"}
KILL_SITES = ["mpi", "mpi", "io.open", "io.read", "io.read", "io.write", "io.listdir", "sql.open", "sql.read", "sql.write", "sql.write", "sql.write",
              "sql.unlink", "sql.unlink", "stdout"]

_code = None


class Xattr:
    """Stands in for xattr.xattr: the extended attributes of one file"""
    marks = {}

    def __init__(self, path):
        self.path = os.path.realpath(path)

    def __setitem__(self, name, value):
        fio._fault("xattr", self.path)
        if not isinstance(value, bytes):
            # as the module and os.setxattr do
            raise TypeError("Value must be bytes, %s was passed." % type(value).__name__)
        self.marks[self.path, name] = value.decode()

    set = __setitem__

    @classmethod
    def all(cls, files):
        """{(file, name): value}, those set by other means included"""
        res = dict(cls.marks)
        for p in files:
            try:
                for name in os.listxattr(p):
                    if name.startswith("user."):
                        res[p, name] = os.getxattr(p, name).decode()
            except OSError:
                pass
        return res


def content(size, salt):
    if size > 100000:
        return (b"%d block " % salt) * (size // 8)
    return (hashlib.md5(b"%d" % salt).digest() * (size // 16 + 1))[:size]


def gen_tree(rng, tier):
    """[kind, path, ...] entries; parents come first"""
    dirs = [""]
    used = {}
    tree = []
    nd = rng.choice([0, 1, 2, 3, 3, 5, 8, 12 if tier == "quick" else 25])
    for _ in range(nd):
        up = rng.choice(dirs)
        p = os.path.join(up, rng.choice(DIRS))
        if p in used or p.count("/") > 5:
            continue
        used[p] = "d"
        dirs.append(p)
        tree.append(["d", p])
    big = rng.random() < 0.02
    for d in dirs:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            p = os.path.join(d, rng.choice(NAMES))
            if p in used:
                continue
            used[p] = "f"
            k = rng.random()
            if k < 0.08 and os.path.basename(p) not in ("out.txt", "hashes.txt"):
                # links to files, within the tree or to nowhere
                tree.append(["l", p, rng.choice(["a.txt", "../a.txt", "nowhere", "b", "c.dat", "../nowhere"])])
            elif k < 0.12 and len(dirs) > 1:
                t = rng.choice(dirs[1:])
                if not (p + "/").startswith(t + "/") and os.path.basename(p) not in ("out.txt", "hashes.txt"):
                    tree.append(["l", p, os.path.relpath(t, d or ".")])
            else:
                if big:
                    size = rng.choice([1, -1, 0]) + rng.choice([1, 1, 2]) * 10 * 2 ** 20
                    big = False
                else:
                    size = rng.choice([0, 0, 1, 5, 100, 1000, 8192, 8193, 70000])
                tree.append(["f", p, size, rng.randrange(1000)])
    return tree


def gen_faults(rng, n):
    res = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.random()
        nth = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 6, 9, 14, 22])
        rank = rng.choice([0, 0, rng.randrange(n)])
        if k < 0.35:
            site = rng.choice(KILL_SITES)
            if site in ("mpi", "io.read", "stdout", "sql.write", "sql.read"):
                nth = rng.choice([nth, rng.randrange(40)])
            res.append(dict(site=site, kind="kill", rank=rank, nth=nth))
        elif k < 0.4:
            res.append(dict(site=rng.choice(["mpi", "io.read", "io.open", "stdout"]), kind="interrupt", rank=rank, nth=nth))
        elif k < 0.47:
            res.append(dict(site="io.read", kind="short read", rank=rank, nth=nth))
        elif k < 0.52:
            res.append(dict(site="sql.write", kind="short write", rank=0, nth=nth))
        elif k < 0.55:
            res.append(dict(site="mpi", kind="mpi-error", rank=rank, nth=nth))
        else:
            site = rng.choice(sorted(SITES) + ["io.open", "io.open", "io.read", "io.read", "io.read", "io.listdir"])
            res.append(dict(site=site, kind=SITES[site], rank=0 if site.startswith(("sql.", "io.list", "io.readd")) else rank, nth=nth,
                            errno=rng.choice(ERRNOS)))
    return res


class C19(Check):
    prop = "C19"
    quick_runs = 6000
    quick_s = 45
    real = ["consistency_check/hash/hash_dirs_mpi.py (the whole program, from its command line)", "argparse", "sqlite3 (on real files)", "hashlib",
            "the file system"]
    stubs = ["mpi4py.MPI (simulated communicator and messages)", "system calls of SQLite and of Python's files (real, but may fail, be short or be the last)",
             "order of directory listings", "xattr (a table)"]
    faults_possible = MPI_FAULTS[:7] + sorted(set(SITES.values())) + ["short read", "short write", "kill", "interrupt", "mpi-error"]
    rule = ("A run is a sequence of jobs on one directory tree: jobs which fail or are killed, each followed by one which resumes from the database "
            "(or starts again), up to one without faults. Non-trivial: a fault took effect or more than one rank took part.")
    assumptions = ("files under the base directory do not change while jobs run", "names are valid UTF-8 without line breaks",
                   "links do not form cycles", "killing a process loses nothing which has reached the operating system")
    stuck_s = 90

    def setup(self):
        global _code
        fio.install()
        sql.install()
        m = types.ModuleType("xattr")
        m.xattr = Xattr
        sys.modules["xattr"] = m
        real = sys.unraisablehook

        def hook(u):
            # the connection of a process which has ended, collected elsewhere
            tb = u.exc_traceback
            while tb is not None:
                if tb.tb_frame.f_code.co_filename == SCRIPT:
                    # destructor of an object which was not completely set up, or a connection of a process which has ended
                    return
                tb = tb.tb_next
            real(u)
        sys.unraisablehook = hook
        import warnings
        warnings.simplefilter("ignore", DeprecationWarning)
        try:
            with open(SCRIPT, "rb") as f:
                _code = compile(f.read(), SCRIPT, "exec")
        except (OSError, SyntaxError) as e:
            raise HarnessError("cannot load the program: %s" % e)

    # ---------------------------------------------------------------- cases
    def gen(self, rng, tier):
        n = gen_n(rng, tier)
        tree = gen_tree(rng, tier)
        dirs = [t[1] for t in tree if t[0] == "d"]
        inside = os.path.join("base", rng.choice(dirs + [""]))
        if any(t[0] == "l" and t[2].split("/")[-1] in DIRS for t in tree):
            # the program's own files must not be reachable by two paths
            inside = "elsewhere"
        o = dict(base=rng.choice(BASES),
                 out=rng.choice(["out.txt", "out.txt", "out.txt", os.path.join(inside, "out.txt"), None]),
                 db=rng.choice(["db.sqlite", "db.sqlite", "db.sqlite", os.path.join(inside, "db.sqlite"), None]),
                 dir=rng.choice([None, None, "hashes.txt", "sums"]),
                 type=rng.choice([None, "md5", "sha1", "sha256", "blake2b"]),
                 include=rng.choice([None, None, None, ",".join(rng.choice(PATTERNS) for _ in range(rng.choice([1, 2])))]),
                 exclude=rng.choice([None, None, None, ",".join(rng.choice(PATTERNS) for _ in range(rng.choice([1, 2])))]))
        if rng.random() < 0.25:
            o["attrs"] = rng.choice([0, 0, 1, 2])     # from this job on
        if o["base"] == ".":
            o["cwd"] = True
        if o["db"]:
            own = os.path.relpath(o["db"], "base")
            tree = [t for t in tree if t[1] not in (own, own + "-journal")]
        case = dict(n=n, sseed=rng.randrange(2 ** 32), cfg=gen_cfg(rng, n, max_steps=600000), layout=dict(kind="world", groups=[list(range(n))]), tree=tree, opts=o,
                    decoys=rng.choice([0, 0, 3]) if o["db"] else 0, phases=[])
        for i in range(rng.choice([1, 2, 2, 2, 3, 4])):
            m = n if i == 0 else gen_n(rng, tier)
            case["phases"].append(dict(n=m, faults=gen_faults(rng, m), bold=rng.random() < 0.2))
        if case["decoys"] and rng.random() < 0.6:
            case["resume_first"] = True
        if rng.random() < 0.2:
            case["phases"][0]["faults"] = []
        case["phases"].append(dict(n=gen_n(rng, tier), faults=[], bold=False))
        return case

    def directed(self):
        cfg = dict(p_eager=0.0, p_sync=0.0, p_late_read=0.0, p_late_write=0.0)
        tree = [["d", "sub"], ["d", "sub/deep"], ["f", "a.txt", 10, 1], ["f", "sub/a.txt", 20, 2], ["f", "sub/b.txt", 0, 3], ["f", "sub/deep/c.dat", 8193, 4]]
        res = []
        for n in (1, 2, 3):
            for db in ("db.sqlite", "base/sub/db.sqlite"):
                base = dict(n=n, sseed=1, cfg=dict(cfg), layout=dict(kind="world", groups=[list(range(n))]), tree=tree, decoys=3,
                            opts=dict(base="base", out="base/out.txt", db=db, dir="sums", type=None, include=None, exclude=None))
                # killed at every database write and delete, then resumed, killed again, and so on
                for site in ("sql.write", "sql.unlink", "io.read"):
                    for nth in range(0, 40 if site == "sql.write" else 8):
                        c = copy.deepcopy(base)
                        c["phases"] = [dict(n=n, faults=[dict(site=site, kind="kill", rank=0, nth=nth)], bold=False)] * 2 + [dict(n=n, faults=[], bold=False)]
                        res.append(c)
        return res

    # ------------------------------------------------------------ the world
    def build(self, case, d):
        base = os.path.join(d, "base")
        os.mkdir(base)
        os.mkdir(os.path.join(d, "elsewhere"))
        for x in ("out", "db"):
            if case["opts"][x]:
                os.makedirs(os.path.dirname(os.path.join(d, case["opts"][x])), exist_ok=True)
        for t in case["tree"]:
            p = os.path.join(base, t[1])
            try:
                if t[0] == "d":
                    os.mkdir(p)
                elif t[0] == "l":
                    os.symlink(t[2], p)
                else:
                    with fio.real_open(p, "wb") as f:
                        f.write(content(t[2], t[3]))
            except OSError:
                pass

    def reference(self, case, base):
        """What there is to be hashed: {directory: [names]} and {relative path: hash or None}"""
        o = case["opts"]
        inc = o["include"].split(",") if o["include"] is not None else None
        exc = o["exclude"].split(",") if o["exclude"] is not None else None
        dirs, files = {}, {}
        own = set()
        for x in ("out", "db"):
            if o[x]:
                own.add(os.path.relpath(o[x], "base"))
        if o["db"]:
            own.add(os.path.relpath(o["db"] + "-journal", "base"))
        algo = o["type"] or "md5"

        def walk(rel, depth):
            if depth > 9 or len(files) > 400:
                raise RecursionError
            names = []
            for x in sorted(os.listdir(os.path.join(base, rel))):
                r = os.path.join(rel, x)
                if os.path.isdir(os.path.join(base, r)):
                    walk(r, depth + 1)
                    continue
                if r in own or (o["dir"] and x == o["dir"]):
                    continue
                if inc is not None and not any(fnmatch(r, os.path.normpath(i)) for i in inc):
                    continue
                if exc is not None and any(fnmatch(r, os.path.normpath(i)) for i in exc):
                    continue
                names.append(x)
                try:
                    with fio.real_open(os.path.join(base, r), "rb") as f:
                        files[r] = hashlib.new(algo, f.read()).hexdigest()
                except OSError:
                    files[r] = None
            dirs[rel] = names
        walk("", 0)
        return dirs, files

    def rows(self, db, given):
        """(rows of this job, other rows) of the database"""
        if not os.path.exists(db):
            return [], []
        con = sql._real_connect(db)
        try:
            if not con.execute("select name from sqlite_master where name='hashes'").fetchall():
                return [], []
            bad = con.execute("pragma integrity_check").fetchall()
            if bad != [("ok",)]:
                raise Violation("database:damaged", "integrity check: %s" % bad)
            r = con.execute("select basedir, path, hash_type, hash from hashes").fetchall()
        except sqlite3.Error as e:
            raise Violation("database:unusable", "%s: %s" % (type(e).__name__, e))
        finally:
            con.close()
        own = [x for x in r if x[2] == given[1] and os.path.abspath(str(x[0])) == os.path.abspath(given[0]) and not str(x[3]).startswith("decoy")]
        return own, [x for x in r if x not in own]

    def argv(self, o, resume):
        a = [SCRIPT, self.basearg]
        if o["out"]:
            a += ["--outfile", o["out"] if not o.get("cwd") else os.path.join("..", o["out"])]
        if o["dir"]:
            a += ["--dirfile", o["dir"]]
        if o["db"]:
            a += ["--database", o["db"] if not o.get("cwd") else os.path.join("..", o["db"])]
        if o["type"]:
            a += ["--type", o["type"]]
        if o["include"] is not None:
            a += ["--include", o["include"]]
        if o["exclude"] is not None:
            a += ["--exclude", o["exclude"]]
        if self.attrs:
            a.append("--attrs")
        if resume:
            a.append("--resume")
        return a

    def execute(self, case, log=False):
        cwd = os.getcwd()
        try:
            with env.rundir() as d:
                return self.run_case(case, d, log)
        finally:
            os.chdir(cwd)
            sys.argv = ["check"]

    def run_case(self, case, d, log):
        o = case["opts"]
        base = os.path.join(d, "base")
        self.build(case, d)
        os.chdir(base if o.get("cwd") else d)
        self.basearg = base if o["base"] == "abs" else o["base"]
        given = (self.basearg, o["type"] or "md5")
        try:
            dirs, files = self.reference(case, base)
        except RecursionError:
            return dict(digest="", steps=0, clock=0, faults={}, probes={"links form a cycle: not run": 1}, counts={}, trace=[], nontrivial=False)
        db = os.path.join(d, o["db"]) if o["db"] else None
        decoys = []
        Xattr.marks.clear()
        if db and case["decoys"]:
            con = sql._real_connect(db)
            con.execute("create table hashes (basedir text, path text, hash_type text, hash text)")
            for i, p in enumerate(sorted(files) + ["gone"]):
                decoys.append(("/other", p, given[1], "decoy%d" % i) if i % 2 else (given[0], p, "crc", "decoy%d" % i))
            con.executemany("insert into hashes values(?,?,?,?)", decoys)
            con.commit()
            con.close()
        struck = False
        total = None
        logs = []
        multi = False
        # the first job may resume from a database which holds only hashes of other trees, or of another type
        resume = bool(decoys) and case.get("resume_first", False)
        recorded = []
        for i, ph in enumerate(case["phases"]):
            c = dict(case, n=ph["n"], faults=ph["faults"], layout=dict(kind="world", groups=[list(range(ph["n"]))]),
                     sseed=(case["sseed"] + i * 0x9e3779b1) & 0xffffffff)
            if i > 0:
                c["trace"] = None
                c["cfg"] = dict(case["cfg"], starve=case["cfg"].get("starve", 0) % ph["n"])
            self.attrs = o.get("attrs") is not None and i >= o["attrs"]
            try:
                sim, killed = self.job(c, d, db, resume, log)
                if log:
                    logs += ["--- job %d: %d ranks%s" % (i + 1, ph["n"], ", resumed" if resume else "")] + ["rank %d: %s" % e for e in sim.log]
                fired = [f for f in sim.faults if f.get("fired")]
                struck = struck or bool(fired)
                multi = multi or ph["n"] > 1
                self.judge_marks(base, files, given)
                normal = sim.aborted is None and sim.failed is None and all(p.what == "returned" for p in sim.procs)
                if resume:
                    known = {os.path.normpath(os.path.join(base, r[1])) for r in recorded}
                    for p in sim.opened:
                        if os.path.normpath(p) in known:
                            raise Violation("resume:recomputed", "%s was read again although its hash is recorded" % os.path.relpath(p, d))
                if normal:
                    self.judge_outputs(case, d, base, dirs, files, fired, sim, given)
                    if db:
                        own, rest = self.rows(db, given)
                        self.judge_rows(own, files, given)
                        reported = {f for f, h in files.items() if h is not None} - self.unread
                        miss = reported - {r[1] for r in own}
                        if miss:
                            raise Violation("database:incomplete", "the job ended normally but hashes of %s are not recorded" % sorted(miss)[:5])
                        if resume and sorted(rest) != sorted(decoys):
                            raise Violation("database:others", "rows which belong to other trees or hash types were changed")
                        if not resume:
                            decoys = rest
                            if rest:
                                raise Violation("database:leftovers", "rows of earlier contents remain: %s" % rest[:3])
                    sim.probe("job completed" + (" in spite of a fault" if fired else ""))
                else:
                    if not fired and not (resume and not recorded):
                        p = ([sim.procs[sim.aborted[0]]] if sim.aborted else [q for q in sim.procs if q.what != "returned"])[0]
                        raise Violation("exception:unprovoked", "no operation failed, yet rank %d ended the job: %s" % (p.rank, "".join(p.out + p.err)[-900:]))
                    sim.probe("job ended by a failure")
                    if db:
                        own, rest = self.rows(db, given)
                        self.judge_rows(own, files, given)
            except Violation as v:
                raise violation_info(v, sim) if "sim" in locals() else v
            if db:
                recorded, rest = self.rows(db, given)
                if rest != decoys:
                    # a job which started afresh emptied the database
                    decoys = rest
                resume = bool(recorded) or ph["bold"]
                if recorded:
                    sim.probe("resumed from a partial database" if len(recorded) < sum(h is not None for h in files.values()) else "resumed from a full database")
                if not recorded and not ph["bold"]:
                    resume = False
                if i == len(case["phases"]) - 2 and not recorded:
                    resume = False
            if total is None:
                total = info_of(sim)
            else:
                total["digest"] += sim.digest
                total["steps"] += sim.steps
                total["clock"] += sim.clock
                for k in ("faults", "probes", "counts"):
                    for x, m in dict(getattr(sim, {"faults": "fault_hits"}.get(k, k))).items():
                        total[k][x] = total[k].get(x, 0) + m
        total["nontrivial"] = struck or multi
        if log:
            total["log"] = logs
        return total

    def job(self, c, d, db, resume, log):
        """One run of the program"""
        import random
        o = c["opts"]
        argv = self.argv(o, resume)
        saved = {}

        def on_death():
            if db and not saved:
                me = fio.core.current()[1]
                old = getattr(me, "plain_io", False)
                me.plain_io = True
                for s in ("", "-journal", "-wal", "-shm"):
                    try:
                        with fio.real_open(db + s, "rb") as f:
                            saved[db + s] = f.read()
                    except OSError:
                        saved[db + s] = None
                me.plain_io = old

        def setup(sim):
            sim.on_death = on_death
            sim.opened = []
            sim.listing = random.Random(c["sseed"])
            for p in sim.procs:
                p.argv = list(argv)

        def body(arg, comm, rank):
            ns = dict(__name__="__main__", __file__=SCRIPT)
            me = fio.core.current()[1]
            try:
                exec(_code, ns)
            finally:
                sql.leave(me)
        try:
            sim = run_mpi(c, body, log=log, allow_exc=True, setup=setup, scratch=d)
        finally:
            for p, raw in saved.items():
                if raw is None:
                    if os.path.exists(p):
                        os.unlink(p)
                else:
                    with fio.real_open(p, "wb") as f:
                        f.write(raw)
        return sim, bool(saved)

    # ---------------------------------------------------------------- oracle
    def judge_marks(self, base, files, given):
        at = {os.path.realpath(os.path.join(base, r)): h for r, h in files.items()}
        for (p, name), v in Xattr.all(at).items():
            if name != "user.checksum." + given[1] or p not in at or at[p] != v:
                raise Violation("attribute:wrong", "%s has attribute %s = %r, its hash is %r" % (p, name, v, at.get(p)))

    def judge_rows(self, own, files, given):
        seen = set()
        for b, p, t, h in own:
            if p in seen:
                raise Violation("database:twice", "%s is recorded twice" % p)
            seen.add(p)
            if p not in files:
                raise Violation("database:stranger", "%s is recorded, which is not one of the selected files" % p)
            if h != files[p]:
                raise Violation("database:wrong", "%s is recorded with hash %s, correct is %s" % (p, h, files[p]))

    def lines(self, path, what):
        try:
            with fio.real_open(path, encoding="utf-8") as f:
                text = f.read()
        except FileNotFoundError:
            raise Violation("output:missing", "the job ended normally without writing %s" % what)
        except UnicodeDecodeError as e:
            raise Violation("output:garbled", "%s: %s" % (what, e))
        if text and not text.endswith("\n"):
            raise Violation("output:torn", "%s ends within a line" % what)
        res = {}
        for l in text.split("\n")[:-1]:
            if l.startswith("#"):
                continue
            h, s, name = l.partition(" ")
            if not s or not name:
                raise Violation("output:garbled", "%s has the line %r" % (what, l))
            if name in res:
                raise Violation("output:twice", "%s lists %s twice" % (what, name))
            res[name] = None if h == "UNREADABLE" else h
        return res

    def judge_outputs(self, case, d, base, dirs, files, fired, sim, given):
        o = case["opts"]
        hit, lost = set(), set()
        for f in fired:
            p = f.get("path")
            if p is None:
                continue
            r = os.path.relpath(p, base)
            if f["site"] in ("io.listdir", "io.readdir"):
                lost.add("" if r == "." else r)
            elif f["site"] in ("io.open", "io.read"):
                hit.add(r)
        under = lambda r: any(l == "" or r == l or r.startswith(l + "/") for l in lost)
        self.unread = {r for r in files if r in hit or under(r)}

        def compare(got, want, rel, what):
            for name in sorted(set(got) | set(want)):
                r = os.path.join(rel, name)
                if name not in got:
                    if r in self.unread and any(u == "" or r.startswith(u + "/") for u in lost):
                        # its directory could not be listed: that has to be said
                        continue
                    raise Violation("output:lost", "%s does not list %s" % (what, r))
                if name not in want:
                    if got[name] is None and ("" if r == "." else r) in lost:
                        continue
                    raise Violation("output:stranger", "%s lists %s, which is not one of the selected files" % (what, r))
                if got[name] != want[name] and not (got[name] is None and r in hit):
                    raise Violation("output:wrong", "%s: %s has hash %s, correct is %s" % (what, r, got[name], want[name]))
        if self.attrs:
            got = Xattr.all(os.path.realpath(os.path.join(base, r)) for r in files)
            for r, h in sorted(files.items()):
                if h is not None and r not in self.unread and (os.path.realpath(os.path.join(base, r)), "user.checksum." + given[1]) not in got:
                    raise Violation("attribute:missing", "%s has no attribute although the job ended normally" % r)
            sim.probe("files with attributes")
        if o["out"]:
            got = self.lines(os.path.join(d, o["out"]), "the output file")
            compare(got, files, "", "the output file")
            for l in lost:
                if (l or ".") not in got and not any(l.startswith(m + "/") or m == "" for m in lost if m != l):
                    raise Violation("output:lost", "directory %s could not be listed and the output file does not say so" % (l or "."))
        if o["dir"]:
            groups = {}
            for rel in dirs:
                if not under(rel):
                    groups.setdefault(os.path.realpath(os.path.join(base, rel)), []).append(rel)
            for real, rels in sorted(groups.items()):
                got = self.lines(os.path.join(real, o["dir"]), "the file of directory %s" % rels[0])
                for k, rel in enumerate(rels):
                    try:
                        compare(got, {x: files[os.path.join(rel, x)] for x in dirs[rel]}, rel, "the file of directory %s" % rel)
                        break
                    except Violation:
                        if k == len(rels) - 1:
                            raise

    # ------------------------------------------------------------- shrinking
    def shrink(self, case):
        for i in range(len(case["phases"]) - 1):
            c = copy.deepcopy(case)
            del c["phases"][i]
            c["n"] = c["phases"][0]["n"]
            c["trace"] = None
            yield c
        for i, ph in enumerate(case["phases"]):
            for j in range(len(ph["faults"])):
                c = copy.deepcopy(case)
                del c["phases"][i]["faults"][j]
                yield c
                if ph["faults"][j]["nth"]:
                    c = copy.deepcopy(case)
                    c["phases"][i]["faults"][j]["nth"] -= 1
                    yield c
            for m in {1, 2, ph["n"] - 1}:
                if 0 < m < ph["n"]:
                    c = copy.deepcopy(case)
                    c["phases"][i]["n"] = m
                    c["phases"][i]["faults"] = [f for f in ph["faults"] if f["rank"] < m]
                    if i == 0:
                        c["n"] = m
                        c["trace"] = None
                        c["cfg"]["starve"] = 0
                    yield c
        size = len(case["tree"])
        while size >= 1:
            for k in range(0, len(case["tree"]), size):
                c = copy.deepcopy(case)
                del c["tree"][k:k + size]
                yield c
            size //= 2
        for k, v in case["opts"].items():
            if v is not None and k not in ("base", "cwd") and not (k == "db" and not case["decoys"] == 0):
                c = copy.deepcopy(case)
                c["opts"][k] = None
                yield c
        if case["opts"]["base"] not in ("base", "."):
            c = copy.deepcopy(case)
            c["opts"]["base"] = "base"
            yield c
        if case["decoys"]:
            c = copy.deepcopy(case)
            c["decoys"] = 0
            yield c
        if len(case["cfg"]) > 5:
            c = copy.deepcopy(case)
            c["cfg"] = dict(p_eager=0.0, p_sync=0.0, p_late_read=0.0, p_late_write=0.0, max_steps=600000)
            c["trace"] = None
            yield c


CHECK = C19()
