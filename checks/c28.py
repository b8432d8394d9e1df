"""SWIFT and SOAP files: histories of several open files with different systems of units, with failing opens and reads"""
import copy
import os
import random
import warnings

import h5py
import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, sim_violation, info_of, violation_info
from .c16 import ERRNOS

MODS = ["virgo.formats.swift", "virgo.formats.soap"]
KINDS = {"h5.open": ["EMFILE", "ENOENT", "EIO", "EACCES"], "h5.read": ["EIO", "ESTALE"]}
DIMS = "LMTt"
# exponents of length, mass, temperature and time
UNITS = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 0, 0, -1), (0, 1, 0, 0), (-3, 1, 0, 0), (2, 1, 0, -2), (0, 0, 1, 0), (0, 0, 0, 1), (2, 0, 0, -2), (0.5, 0, 0, -1), (-1, 1, 0, -2), (1, 0, 1, 0)]
PHYS = "Conversion factor to physical CGS (including cosmological corrections)"
PHYS_OLD = "Conversion factor to CGS (including cosmological corrections)"
PLAIN = "Conversion factor to CGS (not including cosmological corrections)"


def gen_content(rng):
    """What is in a file"""
    c = dict(ul=rng.choice([1.0, 3.085678e24, 1e24, 2.5e21]), um=rng.choice([1.0, 1.98841e43, 1e43, 3e33]), ut=rng.choice([1.0, 3.0857e19, 7e16]), uT=rng.choice([1.0, 1.0, 2.0]),
             a=rng.choice([1.0, 0.5, 0.25, 0.1]), h=rng.choice([0.7, 0.681, 1.0, 0.5]), parsec=rng.choice([3.08567758e18, 3e18]), msun=rng.choice([1.98841e33, 2e33]),
             G=rng.choice([6.6743e-8, 6.67e-8]), code=rng.random() < 0.5, cul=rng.choice([1.0, 5e23]), cum=rng.choice([1.0, 7e40]), cut=rng.choice([1.0, 9e15]), cuT=rng.choice([1.0, 3.0]), deep=rng.random() < 0.5, salt=rng.randrange(1000), sets=[])
    for i in range(rng.choice([1, 2, 3, 4])):
        e = list(rng.choice(UNITS))
        ae = rng.choice([0, 0, e[0], e[0], 1, -2, 0.5])
        c["sets"].append(dict(exp=e, ae=ae, he=rng.choice([0, 0, 0, 0, -1]), extra=rng.choice([1.0, 1.0, 1.0, 2.5, 1e10, 1 + 1e-6]), dtype=rng.choice(["f8", "f8", "f4", "i4", "u1", "i8"]),
                              shape=rng.choice([[3], [5, 3], [1], [0], [4], [7, 2]]), old=rng.random() < 0.2, scalar=rng.random() < 0.3))
    return c


class C28(Check):
    prop = "C28"
    modules = MODS
    quick_runs = 5000
    quick_s = 40
    rule = "at least two files, or two contents of one, were open or read, or an injected failure was met"
    real = ["virgo/formats/swift.py", "virgo/formats/soap.py", "unyt", "swiftsimio", "astropy", "h5py and the HDF5 library", "the file system (real files in a scratch directory)"]
    stubs = ["opens, dataset reads and attribute reads go through dst/fio.py, which injects failures"]
    faults_possible = sorted("%s:%s" % (s, k) for s in KINDS for k in KINDS[s])
    assumptions = ["exponents of electric current are zero (its conversion to CGS is marked as undecided in the source and not supported by unyt)",
                   "the conversion factors in a file are those of its units, apart from a constant factor"]

    # ---------------------------------------------------------------- generation
    def gen(self, rng, tier):
        nf = rng.choice([1, 2, 2, 3])
        case = dict(n=1, seed=rng.randrange(1 << 30), faults=[], files=[gen_content(rng) for _ in range(nf)], ops=[])
        if nf > 1 and rng.random() < 0.3:
            # the same but for one number
            k = rng.choice(["ul", "um", "ut", "a", "h", "parsec"])
            case["files"][1] = dict(copy.deepcopy(case["files"][0]), **{k: case["files"][0][k] * 1.5})
        ops = case["ops"]
        for i in range(nf):
            ops.append(["open", i, rng.choice(["soap", "soap", "swiftsimio"]), rng.randrange(2)])
        if rng.random() < 0.5:
            rng.shuffle(ops)
        for _ in range(rng.choice([2, 4, 8, 12])):
            r = rng.random()
            if r < 0.1:
                ops.append(["open", rng.randrange(nf), rng.choice(["soap", "swiftsimio"]), rng.randrange(2)])
            elif r < 0.16:
                ops.append(["close", rng.randrange(6)])
            elif r < 0.21:
                ops.append(["rewrite", rng.randrange(nf), gen_content(rng)])
            elif r < 0.3:
                ops.append(["unit", rng.randrange(6), rng.choice(["snap_length", "snap_mass", "snap_time", "swift_mpc", "swift_msun", "newton_G", "code_length", "a", "h", "snap_temperature", "code_mass", "code_time", "code_temperature"])])
            elif r < 0.38:
                ops.append(["list", rng.randrange(6)])
            elif r < 0.5:
                ops.append(["hold", rng.randrange(6), rng.randrange(8)])
            elif r < 0.6:
                ops.append(["held", rng.randrange(8), rng.randrange(1 << 20)])
            else:
                ops.append(["read", rng.randrange(6), rng.randrange(8), rng.randrange(1 << 20)])
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                site = rng.choice(["h5.open", "h5.read", "h5.read"])
                e = rng.choice(KINDS[site])
                nth = rng.randrange(6) if site == "h5.open" else rng.randrange(rng.choice([20, 60, 200]))
                case["faults"].append(dict(site=site, kind="%s:%s" % (site, e), errno=ERRNOS[e], rank=0, nth=nth))
        return case

    # ---------------------------------------------------------------- files
    def values(self, c, k):
        s = c["sets"][k]
        n = int(np.prod(s["shape"], dtype=int))
        return ((np.arange(n) * 7 + k * 3 + c["salt"]) % 113 + 1).astype(s["dtype"]).reshape(s["shape"])

    def factors(self, c, k):
        """CGS value of 1 in data set k without and with powers of a and h"""
        s = c["sets"][k]
        f = s["extra"]
        for e, u in zip(s["exp"], (c["ul"], c["um"], c["uT"], c["ut"])):
            f *= u ** e
        return f, f * c["a"] ** s["ae"] * c["h"] ** s["he"]

    def path(self, c, k):
        return "PartType0/Set%d" % k if not (c["deep"] and k % 2) else "Halo/Props/Set%d" % k

    def write(self, i, c):
        tmp = os.path.join(self.dir, "new.hdf5")
        one = lambda v: np.array([v], dtype="f8")
        with fio.plain(), h5py.File(tmp, "w") as f:
            g = f.create_group("Cosmology")
            for k, v in dict(h=c["h"], Omega_b=0.05, Omega_lambda=0.7, Omega_m=0.3, Omega_r=0.0, w_0=-1.0, w_a=0.0, Redshift=1 / c["a"] - 1).items():
                g.attrs[k] = one(v)
            g.attrs["Scale-factor"] = one(c["a"])
            g.attrs["Cosmological run"] = np.array([1])
            g.attrs["H0 [internal units]"] = one(100.0 * c["h"] * 1e5 / (1e6 * 3.08567758e18) * c["ut"])
            g = f.create_group("PhysicalConstants/CGS")
            g.attrs["parsec"], g.attrs["solar_mass"], g.attrs["newton_G"] = one(c["parsec"]), one(c["msun"]), one(c["G"])
            for name, ul, um, ut, uT in (("Units", c["ul"], c["um"], c["ut"], c["uT"]), ("InternalCodeUnits", c["cul"], c.get("cum", 1.0), c.get("cut", 1.0), c.get("cuT", 1.0))):
                if name == "Units" or c["code"]:
                    g = f.create_group(name)
                    for k, v in (("length in cgs (U_L)", ul), ("mass in cgs (U_M)", um), ("time in cgs (U_t)", ut), ("temperature in cgs (U_T)", uT),
                                 ("current in cgs (U_I)", 1.0)):
                        g.attrs["Unit " + k] = one(v)
            for k, s in enumerate(c["sets"]):
                d = f.create_dataset(self.path(c, k), data=self.values(c, k))
                w = float if s["scalar"] else (lambda v: one(v))
                for x, e in zip(DIMS, s["exp"]):
                    d.attrs["U_%s exponent" % x] = one(e)
                d.attrs["U_I exponent"] = one(0)
                d.attrs["a-scale exponent"], d.attrs["h-scale exponent"] = one(s["ae"]), one(s["he"])
                plain, phys = self.factors(c, k)
                d.attrs[PLAIN], d.attrs[PHYS_OLD if s["old"] else PHYS] = w(plain), w(phys)
                d.attrs["Description"] = "set %d of %d" % (k, c["salt"])
        os.replace(tmp, self.names[i])
        self.content[i] = c

    # ---------------------------------------------------------------- run
    def setup(self):
        fio.install()
        fio.install_h5()
        warnings.simplefilter("ignore")

    def execute(self, case, log=False):
        with env.rundir() as d:
            self.dir = d
            sim = env.new_sim(dict(case, n=1), log=log, scratch=d)
            self.sim = sim
            self.contents = 0
            try:
                sim.run([lambda p: self.body(case)])
                sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            info = info_of(sim, nontrivial=bool(sim.fault_hits) or self.contents > 1)
            if log:
                info["log"] = ["%s" % e[1] for e in sim.log]
            return info

    def body(self, case):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.play(case)
        except Violation as v:
            self.sim.violation = (v.cls, v.msg)

    def attempt(self, what, fn):
        """(done, result): an error is acceptable only if a failure was injected meanwhile"""
        sim = self.sim
        n = sum(1 for f in sim.faults if f.get("fired"))
        sim.event(0, what)
        try:
            return True, fn()
        except Exception as e:
            if sum(1 for f in sim.faults if f.get("fired")) == n:
                raise Violation("error", "%s failed with %s: %s" % (what, type(e).__name__, e))
            sim.probe("operation failed")
            return False, None

    def play(self, case):
        nf = len(case["files"])
        self.names = [os.path.join(self.dir, "file_%d.hdf5" % i) for i in range(nf)]
        self.content = [None] * nf
        for i, c in enumerate(case["files"]):
            self.write(i, c)
        opened = []      # [object, content, mode, what]
        held = []        # [dataset object, file entry, k]
        kept = []
        seen = set()
        for op in case["ops"]:
            if op[0] == "open":
                i, mode = op[1] % nf, op[2]
                cls = V("formats.swift").SwiftSnapshot if op[3] % 2 else V("formats.soap").SOAPCatalogue
                what = "open of file %d in mode %s" % (i, mode)
                ok, f = self.attempt(what, lambda: cls(self.names[i], "r", mode=mode) if mode != "soap" or case["seed"] % 2 else cls(self.names[i], "r"))
                if ok:
                    e = dict(obj=f, c=self.content[i], mode=mode, what="file %d (content %d, mode %s)" % (i, self.content[i]["salt"], mode), open=True)
                    opened.append(e)
                    seen.add(id(self.content[i]))
                    self.contents = len(seen)
                    if f.expansion_factor != e["c"]["a"]:
                        raise Violation("metadata", "%s: expansion factor %r, should be %r" % (e["what"], f.expansion_factor, e["c"]["a"]))
                    if abs(f.cosmology.h / e["c"]["h"] - 1) > 1e-3:
                        raise Violation("metadata", "%s: Hubble parameter %r, should be %r" % (e["what"], f.cosmology.h, e["c"]["h"]))
                continue
            if op[0] == "rewrite":
                self.write(op[1] % nf, op[2])
                continue
            if op[0] == "held":
                live = [h for h in held if h[1]["open"]]
                if live:
                    ds, e, k = live[op[1] % len(live)]
                    self.read(kept, ds, e, k, op[2])
                continue
            live = [e for e in opened if e["open"]]
            if not live:
                continue
            e = live[op[1] % len(live)]
            c, f = e["c"], e["obj"]
            if op[0] == "close":
                f.close()
                e["open"] = False
            elif op[0] == "unit":
                name = op[2]
                if name.startswith("code_") and not c["code"]:
                    continue
                want = {"snap_length": c["ul"], "snap_mass": c["um"], "snap_time": c["ut"], "swift_mpc": 1e6 * c["parsec"], "swift_msun": c["msun"], "newton_G": c["G"],
                        "snap_temperature": c["uT"], "code_length": c["cul"], "code_mass": c.get("cum", 1.0), "code_time": c.get("cut", 1.0), "code_temperature": c.get("cuT", 1.0), "a": c["a"], "h": c["h"]}[name]
                ok, u = self.attempt("unit %s of %s" % (name, e["what"]), lambda: f.get_unit(name))
                self.close_to(float((1.0 * u).in_cgs().value), want, "%s: unit %s" % (e["what"], name))
                dims = {str(x): float(y) for x, y in u.dimensions.as_powers_dict().items() if x.is_Symbol and y != 0}
                want = {"newton_G": {"(length)": 3.0, "(mass)": -1.0, "(time)": -2.0}, "swift_mpc": {"(length)": 1.0}, "swift_msun": {"(mass)": 1.0}, "a": {}, "h": {}}.get(
                    name) if "_l" not in name and "_t" not in name and "_mass" not in name else {"(%s)" % name.split("_")[1]: 1.0}
                if dims != want:
                    raise Violation("units", "%s: unit %s has dimensions %r, should be %r" % (e["what"], name, dims, want))
            elif op[0] == "list":
                self.listing(e)
            else:
                k = op[2] % len(c["sets"])
                p = self.path(c, k)
                how = op[3] % 3 if op[0] == "read" else 0

                def get():
                    if how == 0:
                        return f[p]
                    o = f
                    for x in p.split("/"):
                        o = o[x] if how == 1 else o.get(x)
                    return o
                ok, ds = self.attempt("opening %s of %s" % (p, e["what"]), get)
                if not ok:
                    continue
                if op[0] == "hold":
                    held.append((ds, e, k))
                else:
                    self.read(kept, ds, e, k, op[3])
        # results belong to the caller: what happened since has no effect on them
        for fn in kept:
            fn()
        for e in opened:
            if e["open"]:
                e["obj"].close()

    def close_to(self, got, want, what):
        if not abs(got / want - 1) < 1e-8:
            raise Violation("units", "%s: 1 is %r in CGS units, should be %r" % (what, got, want))

    def listing(self, e):
        f, c = e["obj"], e["c"]

        def look():
            return sorted(f), sorted(f.keys()), len(f), [sorted(f[x]) for x in ("PartType0",)], "PartType0/Set0" in f, "nothing" in f, f["PartType0/Set0"].shape, f["PartType0/Set0"].dtype
        ok, r = self.attempt("listing of %s" % e["what"], look)
        if not ok:
            return
        sets = sorted({self.path(c, k).split("/")[0] for k in range(len(c["sets"]))})
        top = sorted(["Cosmology", "PhysicalConstants", "Units"] + ["InternalCodeUnits"] * c["code"] + sets)
        inner = sorted(self.path(c, k).split("/")[1] for k in range(len(c["sets"])) if self.path(c, k).startswith("PartType0"))
        want = (top, top, len(top), [inner], True, False, tuple(c["sets"][0]["shape"]), np.dtype(c["sets"][0]["dtype"]))
        if r != want:
            raise Violation("listing", "%s: %r, should be %r" % (e["what"], r, want))

    def read(self, kept, ds, e, k, salt):
        c, mode = e["c"], e["mode"]
        s = c["sets"][k]
        full = self.values(c, k)
        n = full.shape[0]
        r = random.Random(salt)
        key = r.choice([Ellipsis, slice(None), slice(0, n // 2), slice(n // 2, n)] + ([r.randrange(n), (slice(None), 0) if full.ndim > 1 else Ellipsis] if n else []))
        what = "%s of data set %d of %s" % (key, k, e["what"])
        refuse = mode == "swiftsimio" and (s["he"] != 0 or (s["ae"] != 0 and s["ae"] != s["exp"][0]))
        if refuse:
            self.sim.event(0, "read " + what)
            try:
                v = ds[key]
            except Exception:
                return
            raise Violation("accepted", "%s: units which can't be expressed were accepted: %r" % (what, v))
        a = {n: ds.attrs[n] for n in ds.attrs}
        if a.get("Description") != "set %d of %d" % (k, c["salt"]) or len(a) != 10:
            raise Violation("attributes", "%s: attributes %r" % (what, a))
        whole = r.random() < 0.15 and n > 0
        if whole:
            # going through the data set element by element
            what, key = "iteration over data set %d of %s" % (k, e["what"]), r.randrange(n)
            ok, v = self.attempt(what, lambda: list(ds))
            if not ok:
                return
            if len(v) != n or not all(hasattr(x, "units") and np.array_equal(np.asarray(x.value), full[i]) for i, x in enumerate(v)):
                raise Violation("iteration", "%s: %r, should be %r" % (what, v, full))
            v = v[key]
        else:
            ok, v = self.attempt("read " + what, lambda: ds[key])
        if not ok:
            return
        want = full[key]

        def check():
            got = np.asarray(v.value) if hasattr(v, "value") else np.asarray(v)
            if got.shape != np.shape(want) or got.dtype.kind != want.dtype.kind or not np.array_equal(got, want):
                raise Violation("values", "%s: %r, should be %r" % (what, got, want))
            plain, phys = self.factors(c, k)
            self.close_to(float((1.0 * v.units).in_cgs().value), phys if mode == "soap" else plain, what)
            d = v.units.dimensions.as_powers_dict()
            dims = {"L": "(length)", "M": "(mass)", "T": "(temperature)", "t": "(time)"}
            got_d = {str(x): float(y) for x, y in d.items() if x.is_Symbol and y != 0}
            want_d = {dims[x]: float(y) for x, y in zip(DIMS, s["exp"]) if y}
            if got_d != want_d:
                raise Violation("units", "%s: dimensions %r, should be %r" % (what, got_d, want_d))
            if mode == "soap":
                p = {str(x): float(y) for x, y in v.units.expr.as_powers_dict().items()}
                if p.get("a", 0.0) != s["ae"] or p.get("h", 0.0) != s["he"]:
                    raise Violation("units", "%s: %s, should have a^%s h^%s" % (what, v.units, s["ae"], s["he"]))
            elif mode == "swiftsimio":
                if bool(v.comoving) != (s["ae"] != 0):
                    raise Violation("comoving", "%s: comoving is %r although the exponent of a is %s" % (what, v.comoving, s["ae"]))
                f = float(v.cosmo_factor.a_factor)
                if abs(f / c["a"] ** s["ae"] - 1) > 1e-9 or v.cosmo_factor.scale_factor != c["a"]:
                    raise Violation("comoving", "%s: factor %r for a=%r" % (what, v.cosmo_factor, c["a"]))
        check()
        kept.append(check)

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        for i in range(len(case["ops"])):
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
        if len(case["files"]) > 1:
            c = copy.deepcopy(case)
            c["files"].pop()
            yield c
        for i, f in enumerate(case["files"]):
            for j in range(len(f["sets"])):
                if len(f["sets"]) > 1:
                    c = copy.deepcopy(case)
                    del c["files"][i]["sets"][j]
                    yield c
            for k, v in (("deep", False), ("code", False), ("a", 1.0), ("h", 1.0), ("ul", 1.0), ("um", 1.0), ("ut", 1.0)):
                if f[k] != v:
                    c = copy.deepcopy(case)
                    c["files"][i][k] = v
                    yield c
            for j, s in enumerate(f["sets"]):
                for k, v in (("he", 0), ("ae", 0), ("extra", 1.0), ("exp", [0, 0, 0, 0]), ("dtype", "f8"), ("old", False)):
                    if s[k] != v:
                        c = copy.deepcopy(case)
                        c["files"][i]["sets"][j][k] = v
                        yield c


CHECK = C28()
