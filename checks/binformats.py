"""
Writers for the binary formats the repository reads, independent of its
readers: each builds the bytes of a file together with the list of values a
reader has to return.
"""
import numpy as np

I4, I8, U4, U8, F4, F8 = "i4", "i8", "u4", "u8", "f4", "f8"


class Field:
    def __init__(self, name, attr, offset, value, dtype):
        self.name, self.attr, self.offset, self.value, self.dtype = name, attr, offset, value, np.dtype(dtype)
        self.nbytes = self.dtype.itemsize * value.size


class Builder:
    def __init__(self, endian):
        self.e = endian
        self.out = []
        self.pos = 0
        self.fields = []
        self.marks = []     # (offset, value, record number)
        self.nrec = 0
        self.nval = 0

    def put(self, b):
        self.out.append(b)
        self.pos += len(b)

    def field(self, name, dtype, value, attr=False, hidden=False):
        d = np.dtype(dtype)
        v = np.asarray(value, dtype=d)
        if not hidden:
            self.fields.append(Field(name, attr, self.pos, v, d))
        self.put(v.astype(d.newbyteorder(self.e)).tobytes())

    def attr(self, name, dtype, value):
        self.field(name, dtype, value, attr=True)

    def fake(self, name, dtype, shape, positive=True):
        """Field with recognisable values"""
        self.field(name, dtype, self.numbers(dtype, shape))

    def numbers(self, dtype, shape):
        n = 1
        for s in shape:
            n *= s
        self.nval += 1
        d = np.dtype(dtype)
        v = np.arange(n, dtype=np.int64) + 1 + 1000 * self.nval
        if d.kind == "f":
            return (v * 0.375).astype(d).reshape(shape)
        if d == np.dtype(U8):
            return (v.astype(U8) + np.uint64(1 << 33)).reshape(shape)
        return v.astype(d).reshape(shape)

    def record(self, fn, marker=U4):
        """Fortran record around what fn writes"""
        i = len(self.out)
        p = self.pos
        self.out.append(None)
        self.pos += 4
        fn()
        n = self.pos - p - 4
        m = np.array(n, dtype=self.e + "u4").tobytes()
        self.out[i] = m
        self.put(m)
        self.marks.append((p, n, self.nrec))
        self.marks.append((self.pos - 4, n, self.nrec))
        self.nrec += 1

    @property
    def data(self):
        return b"".join(self.out)


# ------------------------------------------------------------------ snapshots
GADGET = [("Coordinates", "float", (3,), None), ("Velocities", "float", (3,), None), ("ParticleIDs", "int", (), None),
          ("Masses", "float", (), "mass"), ("InternalEnergy", "float", (), "gas"), ("Density", "float", (), "gas"), ("SmoothingLength", "float", (), "gas")]


def gadget_snapshot(endian, counts, table, idb, fltb, nblocks, extra=(), nfiles=1, rows=None):
    """rows[itype]: global row numbers of the particles (C18); values derive from them"""
    b = Builder(endian)
    masstable = np.array(table, dtype=F8)

    def header():
        b.attr("Header/NumPart_ThisFile", I4, counts)
        b.attr("Header/MassTable", F8, masstable)
        b.attr("Header/Time", F8, 0.25)
        b.attr("Header/Redshift", F8, 3.0)
        b.attr("Header/Flag_Sfr", I4, 1)
        b.attr("Header/Flag_Feedback", I4, 2)
        b.attr("Header/NumPart_Total", U4, [c * 2 + 1 for c in counts])
        b.attr("Header/Flag_Cooling", I4, 3)
        b.attr("Header/NumFilesPerSnapshot", I4, nfiles)
        b.attr("Header/BoxSize", F8, 62.5)
        b.attr("Header/Omega0", F8, 0.25)
        b.attr("Header/OmegaLambda", F8, 0.75)
        b.attr("Header/HubbleParam", F8, 0.73)
        b.attr("Header/Flag_StellarAge", I4, 4)
        b.attr("Header/Flag_Metals", I4, 5)
        b.attr("Header/NumPart_Total_HighWord", U4, [0, 1, 0, 2, 0, 0])
        b.put(b"\x11" * (256 + 4 - b.pos))
    b.record(header)
    blocks = [(n, k, s, dict(mass=masstable == 0, gas=np.arange(6) == 0).get(w, np.ones(6, bool))) for n, k, s, w in GADGET]
    blocks += [(n, k, tuple(s), np.array(p, dtype=bool)) for n, k, s, p in extra]
    done = 0
    for j, (name, kind, shape, pt) in enumerate(blocks):
        if not any(counts[i] and pt[i] for i in range(6)):
            continue
        if done >= nblocks and done >= 3:
            break
        done += 1
        d = ("i%d" % idb) if kind == "int" else ("f%d" % fltb)

        def body():
            for i in range(6):
                if pt[i] and counts[i]:
                    if rows is None:
                        v = b.numbers(d, (counts[i],) + shape)
                    else:
                        v = particle(name, i, rows[i], d, shape)
                    b.field("PartType%d/%s" % (i, name), d, v)
        b.record(body)
    return b


def particle(name, itype, rows, d, shape):
    """Values of a dataset for particles with given global row numbers"""
    k = dict(Coordinates=1, Velocities=2, ParticleIDs=3).get(name, 4)
    n = 1
    for s in shape:
        n *= s
    v = (np.asarray(rows, dtype=np.int64)[:, None] * 8 + itype) * 5 + k
    v = v + 100000 * np.arange(n)[None, :]
    return (v * 0.5 if np.dtype(d).kind == "f" else v).astype(d).reshape((len(rows),) + tuple(shape))


def lg2_snapshot(endian, keys, boxsize, hashtabsize, first, last, counts2=None, nfiles=1, rows=None, pos=None):
    """keys: hash cell of every particle, sorted"""
    b = Builder(endian)
    n = len(keys)

    def header():
        b.attr("Header/NumPart_ThisFile", U4, [0, n, 0, 0, 0, 0])
        b.attr("Header/MassTable", F8, np.arange(6) * 0.5)
        b.attr("Header/Time", F8, 0.25)
        b.attr("Header/Redshift", F8, 3.0)
        b.attr("Header/Flag_Sfr", I4, 0)
        b.attr("Header/Flag_Feedback", I4, 0)
        b.attr("Header/NumPart_Total", U4, [0, 1 << 30, 0, 0, 0, 0])
        b.attr("Header/Flag_Cooling", I4, 0)
        b.attr("Header/NumFilesPerSnapshot", I4, nfiles)
        b.attr("Header/BoxSize", F8, boxsize)
        b.attr("Header/Omega0", F8, 0.25)
        b.attr("Header/OmegaLambda", F8, 0.75)
        b.attr("Header/HubbleParam", F8, 0.73)
        b.attr("Header/Flag_StellarAge", I4, 0)
        b.attr("Header/Flag_Metals", I4, 0)
        b.attr("Header/HashTabSize", I4, hashtabsize)
        b.attr("Header/fill", "u1", np.arange(84))
    b.record(header)
    if rows is None:
        rows = np.arange(n)
    if pos is None:
        pos = particle("Coordinates", 1, rows, F4, (3,))
    b.record(lambda: b.field("PartType1/Coordinates", F4, pos))
    b.record(lambda: b.field("PartType1/Velocities", F4, particle("Velocities", 1, rows, F4, (3,))))
    b.record(lambda: b.field("PartType1/ParticleIDs", U8, particle("ParticleIDs", 1, rows, U8, ())))

    def cells():
        b.field("first_hash_cell", I4, first)
        b.field("last_hash_cell", I4, last)
    b.record(cells)
    start = np.searchsorted(np.asarray(keys), np.arange(first, last + 1), side="left")
    b.record(lambda: b.field("blockid", I4, start))
    return b


# ------------------------------------------------------------------ group catalogues
def group_numbers(ng, ns, ntot_sub=None, sub0=0, off0=0, grp0=0, lens=None, nsubs=None):
    """Consistent lengths, offsets and pointers"""
    glen = np.array(lens if lens is not None else [20 + (i * 7) % 13 for i in range(ng)], dtype=np.int64)
    goff = off0 + np.cumsum(glen) - glen
    if nsubs is None:
        nsubs = np.zeros(ng, dtype=np.int64)
        for i in range(ns):
            if ng:
                nsubs[(i * i) % ng] += 1
    nsubs = np.array(nsubs, dtype=np.int64)
    first = sub0 + np.cumsum(nsubs) - nsubs
    parent = np.repeat(np.arange(ng), nsubs) + grp0
    if len(parent) != ns:
        parent = np.zeros(ns, dtype=np.int64) + grp0
    return glen, goff, nsubs, first, parent


def g4_subtab(endian, ng, ns, idb, dp, ntask=1, tot=None, lentype=None, nsubs=None, firstsub=None, sublentype=None, grnr=None, salt=0):
    b = Builder(endian)
    b.nval = salt
    F = F8 if dp else F4

    def header():
        for name, v in (("Ngroups", ng), ("Nsubgroups", ns), ("Nids", ng * 3), ("TotNgroups", ng + 1), ("TotNsubgroups", ns + 2), ("TotNids", 9), ("NFiles", ntask),
                        ("padding1", 77)):
            b.field(name, I4, v)
        for i, name in enumerate(("Time", "Redshift", "HubbleParam", "BoxSize", "Omega0", "OmegaLambda")):
            b.field(name, F8, 0.5 + i)
        b.field("flag_dp", I4, int(dp))
        b.field("padding2", I4, 78)
    b.record(header)

    def rec(name, d, shape, v=None):
        b.record(lambda: b.field(name, d, b.numbers(d, shape) if v is None else v))
    if ng:
        g = (ng,)
        rec("GroupLen", I4, g, None if lentype is None else np.sum(lentype, axis=1))
        rec("GroupMass", F, g)
        rec("GroupPos", F, g + (3,))
        rec("GroupVel", F, g + (3,))
        rec("GroupLenType", I4, g + (6,), lentype)
        rec("GroupMassType", F, g + (6,))
        for n in ("Mean200", "Crit200", "TopHat200"):
            rec("Halo_M_" + n, F, g)
            rec("Halo_R_" + n, F, g)
        rec("Nsubs", I4, g, nsubs)
        rec("FirstSub", I4, g, firstsub)
    if ns:
        s = (ns,)
        rec("SubLen", I4, s, None if sublentype is None else np.sum(sublentype, axis=1))
        rec("SubMass", F, s)
        rec("SubPos", F, s + (3,))
        rec("SubVel", F, s + (3,))
        rec("SubLenType", I4, s + (6,), sublentype)
        rec("SubMassType", F, s + (6,))
        rec("SubCofM", F, s + (3,))
        rec("SubSpin", F, s + (3,))
        for n in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMassRad"):
            rec(n, F, s)
        rec("SubHalfMassRadType", F, s + (6,))
        rec("SubMassInRad", F, s)
        rec("SubMassInRadType", F, s + (6,))
        rec("SubMostBoundID", "u%d" % idb, s)
        rec("SubGrNr", I4, s, grnr)
        rec("SubParent", I4, s)
    return b


def header(b, *items):
    for name, d, v in items:
        b.field(name, d, v)


def pg3_ids(endian, nids, idb, ntask, sub):
    b = Builder(endian)
    header(b, ("Ngroups", I4, 3), ("TotNgroups", I4, 5), ("Nids", I4, nids), ("TotNids", I8, nids + (1 << 33)), ("NTask", I4, ntask), ("SendOffset", I4, 11))
    b.fake("GroupIDs", "u%d" % idb, (nids,))
    return b


def pg3_grouptab(endian, ng, idb, fltb, ntask):
    b = Builder(endian)
    F = "f%d" % fltb
    header(b, ("Ngroups", I4, ng), ("TotNgroups", I4, ng + 3), ("Nids", I4, ng * 30), ("TotNids", I8, (1 << 33) + 5), ("NTask", I4, ntask))
    glen, goff, _, _, _ = group_numbers(ng, 0)
    lt = np.zeros((ng, 6), dtype=np.int64)
    lt[:, 1] = glen // 3
    lt[:, 4] = glen - lt[:, 1]
    mt = lt * 2.0
    b.field("GroupLen", I4, glen)
    b.field("GroupOffset", U4, goff)
    b.field("GroupMass", F, mt.sum(axis=1))
    b.fake("GroupCofM", F, (ng, 3))
    b.fake("GroupVel", F, (ng, 3))
    b.field("GroupLenType", I4, lt)
    b.field("GroupMassType", F, mt)
    return b


def pg3_subtab(endian, ng, ns, idb, fltb, ntask, vd, lens=None, nsubs=None, sub0=0, off0=0, grp0=0, totg=None, tots=None, suboff=None, sublen=None, salt=0):
    b = Builder(endian)
    b.nval = salt
    F = "f%d" % fltb
    glen, goff, nsub, first, parent = group_numbers(ng, ns, lens=lens, nsubs=nsubs, sub0=sub0, off0=off0, grp0=grp0)
    header(b, ("Ngroups", I4, ng), ("TotNgroups", I4, ng if totg is None else totg), ("Nids", I4, int(glen.sum())), ("TotNids", I8, 1 << 20),
           ("NTask", I4, ntask), ("Nsubgroups", I4, ns), ("TotNsubgroups", I4, ns if tots is None else tots))
    g = (ng,)
    b.field("GroupLen", I4, glen)
    b.field("GroupOffset", U4, goff)
    b.fake("GroupMass", F, g)
    b.fake("GroupPos", F, g + (3,))
    for n in ("Mean200", "Crit200", "TopHat200"):
        b.fake("Halo_M_" + n, F, g)
        b.fake("Halo_R_" + n, F, g)
    if vd:
        for n in ("Mean200", "Crit200", "TopHat200"):
            b.fake("VelDisp_" + n, F, g)
    b.fake("ContaminationLen", I4, g)
    b.fake("ContaminationMass", F, g)
    b.field("Nsubs", I4, nsub)
    b.field("FirstSub", I4, first)
    s = (ns,)
    if sublen is None:
        sublen = 5 + np.arange(ns) % 4
        suboff = off0 + np.arange(ns) * 3
    b.field("SubLen", I4, sublen)
    b.field("SubOffset", I4, suboff)
    b.fake("SubParent", I4, s)
    b.fake("SubMass", F, s)
    for n in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
        b.fake(n, F, s + (3,))
    for n in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"):
        b.fake(n, F, s)
    b.fake("SubMostBoundID", "u%d" % idb, s)
    b.field("SubGrNr", I4, parent)
    return b


def lg3_subtab(endian, ng, ns, idb, fltb, ntask, vd, shapes):
    b = Builder(endian)
    F = "f%d" % fltb
    glen, goff, nsub, first, parent = group_numbers(ng, ns)
    header(b, ("Ngroups", I4, ng), ("TotNgroups", I8, ng + 1), ("Nids", I4, int(glen.sum())), ("TotNids", I8, 1 << 20),
           ("NTask", I4, ntask), ("Nsubgroups", I4, ns), ("TotNsubgroups", I8, ns))
    g, s = (ng,), (ns,)
    b.field("GroupLen", I4, glen)
    b.field("GroupOffset", I4, goff)
    b.fake("GroupNr", I8, g)
    for n in ("GroupCofM", "GroupVel", "GroupPos"):
        b.fake(n, F, g + (3,))
    for n in ("Halo_M_Mean200", "Halo_M_Crit200", "Halo_M_TopHat200", "GroupVelDisp"):
        b.fake(n, F, g)
    if vd:
        for n in ("Mean200", "Crit200", "TopHat200"):
            b.fake("VelDisp_" + n, F, g)
    b.field("Nsubs", I4, nsub)
    b.field("FirstSub", I4, first)
    b.field("SubLen", I4, 5 + np.arange(ns) % 4)
    b.field("SubOffset", I4, np.arange(ns) * 3)
    b.field("SubGrNr", I8, parent)
    b.fake("SubNr", I8, s)
    for n in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
        b.fake(n, F, s + (3,))
    for n in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"):
        b.fake(n, F, s)
    if shapes:
        b.fake("SubShape", F, s + (6,))
    b.fake("SubBindingEnergy", F, s)
    b.fake("SubPotentialEnergy", F, s)
    b.fake("SubProfile", F, s + (9,))
    return b


def lg3_ids(endian, nids, idb, ntask):
    b = Builder(endian)
    header(b, ("Ngroups", I4, 3), ("TotNgroups", I8, (1 << 34) + 5), ("Nids", I4, nids), ("TotNids", I8, nids + (1 << 33)), ("NTask", I4, ntask),
           ("NidsPrevious", I8, 11))
    b.fake("GroupIDs", "u%d" % idb, (nids,))
    return b


def lg2_grouptab(endian, ng, ntask, minlen):
    b = Builder(endian)
    glen, goff, _, _, _ = group_numbers(ng, 0)
    header(b, ("Ngroups", I4, ng), ("Nids", I4, int(glen.sum())), ("TotNgroups", I4, ng + 2), ("NTask", I4, ntask))
    b.field("GroupLen", I4, glen)
    b.field("GroupOffset", I4, goff)
    b.field("GroupMinLen", I4, minlen)
    b.fake("Count", I4, (minlen,))
    return b


def lg2_ids(endian, nids, idb, ntask, last):
    b = Builder(endian)
    header(b, ("Ngroups", I4, 2), ("Nids", I4, nids), ("TotNgroups", I4, 4), (last, I4, ntask))
    b.field("GroupIDs", "u%d" % idb, 1000 + np.arange(nids))
    return b


def lg2_subtab(endian, ng, ns, idb, ntask):
    b = Builder(endian)
    glen, goff, nsub, first, parent = group_numbers(ng, ns)
    header(b, ("Ngroups", I4, ng), ("Nids", I4, 5 * ns + 20), ("TotNgroups", I4, ng + 2), ("NFiles", I4, ntask), ("Nsubhalos", I4, ns))
    g, s = (ng,), (ns,)
    b.field("NsubPerHalo", I4, nsub)
    b.field("FirstSubOfHalo", I4, first)
    b.field("SubLen", I4, 5 + np.arange(ns) % 4)
    b.field("SubOffset", I4, np.arange(ns) * 3)
    b.field("SubParentHalo", I4, parent)
    for n in ("Mean200", "Crit200", "TopHat200"):
        b.fake("Halo_M_" + n, F4, g)
        b.fake("Halo_R_" + n, F4, g)
    b.fake("SubPos", F4, s + (3,))
    b.fake("SubVel", F4, s + (3,))
    b.fake("SubVelDisp", F4, s)
    b.fake("SubVmax", F4, s)
    b.fake("SubSpin", F4, s + (3,))
    b.fake("SubMostBoundID", "u%d" % idb, s)
    b.fake("SubHalfMass", F4, s)
    return b


# ------------------------------------------------------------------ trees and halo finders
NATIVE = "<" if np.dtype("<i4").isnative else ">"


def mpa_subdesc(n):
    b = Builder(NATIVE)
    b.field("TotNsubhalos", I4, n)
    b.fake("HaloIndex", I4, (n,))
    b.fake("SnapNum", I4, (n,))
    return b


def mxxl_subdesc(n):
    b = Builder(NATIVE)
    b.field("Nsubgroups", I4, n)
    b.fake("SubMostBoundID", U8, (n,))
    b.fake("Desc_FileNr", I4, (n,))
    b.fake("Desc_SubIndex", I4, (n,))
    return b


def mxxl_field(endian, ntask, nn, slabs):
    """The first number of the file is 8 in these files (the reader takes the byte order from it), not the length of the header"""
    b = Builder(endian)
    mark = np.array(8, dtype=endian + "i4").tobytes()
    b.put(mark)
    b.field("NTask", I4, ntask)
    b.field("BoxSize", F8, 3000.0)
    b.field("nn", I4, nn)
    b.field("isw_slabs_per_task", I4, slabs)
    b.put(mark)
    b.record(lambda: b.fake("grid", F4, (slabs, nn, nn)))
    return b


def mpa_treeaux(nh, nu, nt, nsnap, idb):
    b = Builder(NATIVE)
    header(b, ("TotHalos", I4, nh), ("Totunique", I4, nu), ("Ntrees", I4, nt), ("TotSnaps", I4, nsnap))
    b.fake("CountID_Snap", I4, (nsnap,))
    b.fake("OffsetID_Snap", I4, (nsnap,))
    b.fake("CountID_SnapTree", I4, (nsnap, nt))
    b.fake("OffsetID_SnapTree", I4, (nsnap, nt))
    b.fake("Nunique", I4, (nh,))
    b.fake("OffsetID_Halo", I4, (nh,))
    b.fake("IDs", "u%d" % idb, (nu,))
    b.fake("Pos", F4, (nu, 3))
    b.fake("Vel", F8, (nu, 3))
    return b


def records(d, n, salt=0):
    r = np.zeros(n, dtype=d)
    for i, f in enumerate(d.names):
        t = d.fields[f][0]
        m = int(np.prod(t.shape, dtype=int))
        v = (np.arange(n * m) + 1 + 100 * i + salt).reshape((n,) + t.shape)
        r[f] = v * 0.25 if t.base.kind == "f" else v
    return r


def mpa_tree(nt, nh, idb, masstab):
    b = Builder(NATIVE)
    header(b, ("Ntrees", I4, nt), ("Nhalos", I4, nh))
    b.fake("NPerTree", I4, (nt,))
    f = [(n, I4) for n in ("Descendant", "FirstProgenitor", "NextProgenitor", "FirstHaloInFOFgroup", "NextHaloInFOFgroup", "Len")]
    f += [(n, F4) for n in ("M_Mean200", "M_Crit200", "M_TopHat")] + [("Pos", F4, (3,)), ("Vel", F4, (3,)), ("VelDisp", F4), ("VMax", F4), ("Spin", F4, (3,)),
                                                                     ("MostBoundID", "u%d" % idb)]
    f += [("SnapNum", I4), ("FileNr", I4), ("SubhaloIndex", I4), ("SubhalohalfMass", F4)]
    if masstab:
        f.append(("SubMassTab", F4, (6,)))
    d = np.dtype(f)
    b.field("HaloList", d, records(d, nh))
    return b


def rockstar(nh, npart, rev, hydro):
    b = Builder(NATIVE)
    H = "Header/"
    b.attr(H + "magic", U8, 0xfadedacec0c0d0d0)
    b.attr(H + "snap", I8, 12)
    b.attr(H + "chunk", I8, 3)
    for i, n in enumerate(("scale", "om", "ol", "h0")):
        b.attr(H + n, F4, 0.25 + i)
    b.attr(H + "bounds", F4, np.arange(6) * 1.5)
    b.attr(H + "num_halos", I8, nh)
    b.attr(H + "num_particles", I8, npart)
    b.attr(H + "box_size", F4, 100.0)
    b.attr(H + "particle_mass", F4, 1.5e9)
    b.attr(H + "particle_type", I8, 0)
    b.attr(H + "format_revision", I4, rev)
    b.attr(H + "rockstar_version", "S12", b"0.99.9")
    b.attr(H + "unused", "S144", b"zz")
    f = [("id", I8), ("pos", F4, (6,)), ("corevel", F4, (3,)), ("bulkvel", F4, (3,))]
    f += [(n, F4) for n in "m r child_r vmax_r mgrav vmax rvmax rs klypin_rs vrms".split()]
    f += [("J", F4, (3,)), ("energy", F4), ("spin", F4), ("alt_m", F4, (4,))]
    f += [(n, F4) for n in "Xoff Voff b_to_a c_to_a".split()] + [("A", F4, (3,)), ("b_to_a2", F4), ("c_to_a2", F4), ("A2", F4, (3,))]
    f += [(n, F4) for n in "bullock_spin kin_to_pot m_pe_b m_pe_d".split()]
    if rev >= 2:
        f.append(("halfmass_radius", F4))
    f += [(n, I8) for n in "num_p num_child_particles p_start desc flags n_core".split()]
    f += [(n, F4) for n in "min_pos_err min_vel_err min_bulkvel_err".split()]
    if hydro:
        f += [("type", I4)] + [(n, F4) for n in "sm gas bh peak_density av_density".split()]
    d = np.dtype(f, align=True)
    r = records(d, nh)
    r["p_start"] = 0
    r["num_p"] = np.arange(nh) % (npart + 1)
    b.field("Halo", d, r)
    b.fake("IDs", I8, (npart,))
    return b


def velociraptor(ng, hsize, keepfof):
    b = Builder(NATIVE)
    H = "Header/"
    b.attr(H + "ThisTask", I4, 2)
    b.attr(H + "NProcs", I4, 4)
    b.attr(H + "ng", U8, ng)
    b.attr(H + "ngtot", U8, ng + 10)
    b.attr(H + "hsize", I8, hsize)
    for i in range(hsize):
        b.attr(H + "entry%03d" % i, "S40", b"name%d" % i)
    f = [(n, U8) for n in ("haloid", "ibound", "hostid", "numsubs", "num")] + [("stype", U4)]
    if keepfof:
        f += [("directhostid", U8), ("hostfofid", U8)]
    f += [("gMvir", F8)] + [(n, F8, (3,)) for n in ("gcm", "gpos", "gcmvel", "gvel")]
    f += [(n, F8) for n in "gmass gMFOF gM200m gM200c gMvir_again Efrac gRvir gsize gR200m gR200c gRvir_again gRhalfmass gRmaxvel gmaxvel gsigma_v".split()]
    f += [("gveldisp", F8, (3, 3)), ("glambda_B", F8), ("gJ", F8, (3,)), ("gq", F8), ("gs", F8), ("geigvec", F8, (3, 3))]
    f += [(n, F8) for n in "cNFW Krot T Pot RV_sigma_v".split()]
    f += [("RV_veldisp", F8, (3, 3)), ("RV_lambda_B", F8), ("RV_J", F8, (3,)), ("RV_q", F8), ("RV_s", F8), ("RV_eigvec", F8, (3, 3))]
    d = np.dtype(f)
    b.field("Halo", d, records(d, ng))
    return b
