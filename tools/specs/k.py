PG = "python/virgo/formats/subfind_pgadget3.py"
LG = "python/virgo/formats/subfind_lgadget2.py"
L3 = "python/virgo/formats/subfind_lgadget3.py"
HELP = '''
import sys, struct, numpy as np
from virgo.util.exceptions import SanityCheckFailedException

def raises(f):
    try:
        f.sanity_check()
    except Exception as e:
        print("raised", e)
        return True
    return False

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)

def write(name, *parts):
    with open(name, "wb") as g:
        for dtype, value in parts:
            g.write(np.asarray(value, dtype=dtype).tobytes())

def pg3_subtab(name, glen, nsubs, first, sublen, suboff, grnr, totnids=None, totg=None, tots=None, halo=None, fill=1.0):
    ng, ns = len(glen), len(sublen)
    f = lambda n: ("<f4", np.full(n, fill))
    h = [("<i4", ng), ("<i4", ng if totg is None else totg), ("<i4", sum(glen)), ("<i8", sum(glen) if totnids is None else totnids), ("<i4", 1), ("<i4", ns),
         ("<i4", ns if tots is None else tots)]
    g = [("<i4", glen), ("<u4", np.cumsum(glen) - np.array(glen)), f(ng), f(3 * ng)] + [f(ng) if halo is None or i else ("<f4", halo) for i in range(6)] + [("<i4", np.ones(ng)), f(ng),
         ("<i4", nsubs), ("<i4", first)]
    s = [("<i4", sublen), ("<i4", suboff), ("<i4", np.zeros(ns)), f(ns)] + [f(3 * ns)] * 4 + [f(ns)] * 4 + [("<u8", np.arange(ns)), ("<i4", grnr)]
    write(name, *(h + g + s))
'''
BUGS = []


def bug(id, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop="C29", needs=needs, breaks=breaks, edits=edits, demo=HELP + demo))


bug("b29-order-ends", "three or more subgroups of which one in the middle has a group number too small or too large for its place",
    "the order of the group numbers is only looked at between the first and the last subgroup",
    [(PG, "            if np.any(subgrnr[1:] < subgrnr[:-1]):", "            if np.any(subgrnr < subgrnr[0]) or np.any(subgrnr > subgrnr[-1]):")], '''
from virgo.formats.subfind_pgadget3 import SubTabFile
def make(grnr):
    pg3_subtab("f", [10, 10, 10], [1, 2, 1], [0, 1, 3], [2] * 4, [0, 10, 12, 20], grnr)
    return SubTabFile("f")
check(not raises(make([0, 1, 1, 2])), "alarm on a good file")
check(raises(make([0, 2, 1, 2])), "group numbers 0 2 1 2 accepted")
''')
bug("b29-finite-sum", "a catalogue with several values near the largest number of the type",
    "a file with nothing wrong is refused, as the sum of the values overflows",
    [(PG, '''            data = self[prop][...]
            if not(np.all(np.isfinite(data))):
                raise Exception("Found non-finite value in dataset %s" % prop)
            if not(np.all(data >= 0.0)) and''', '''            data = self[prop][...]
            if not(np.isfinite(np.sum(data))):
                raise Exception("Found non-finite value in dataset %s" % prop)
            if not(np.all(data >= 0.0)) and''')], '''
from virgo.formats.subfind_pgadget3 import SubTabFile
pg3_subtab("f", [10], [2], [0], [2, 2], [0, 5], [0, 0])
check(not raises(SubTabFile("f")), "alarm on a good file")
pg3_subtab("f", [10], [2], [0], [2, 2], [0, 5], [0, 0], fill=3.0e38)
check(not raises(SubTabFile("f")), "alarm on a good file with large numbers")
''')
bug("b29-zero-before-split", "two IDs whose low 34 bits are zero but whose hash keys differ or are not zero",
    "IDs which appear more than once are counted before the hash key is taken off, so that two particles with ID zero go unnoticed",
    [(LG, '''        # Split ID into particle ID and hash key
        key = np.right_shift(ids, 34)
        ids = ids - np.left_shift(key, 34)

        # Note: hash table size and max ID hard coded here
        if np.any(key < 0) or np.any(key >= 256**3):
            raise SanityCheckFailedException("Hash key out of range")
        if np.any(ids<0) or np.any(ids>2160**3):
            raise SanityCheckFailedException("Particle ID out of range")
        if sum(ids==0) > 1:
            raise SanityCheckFailedException("Found multiple zero IDs")

        # Return None if everything looks ok
        return None
        

''', '''        nr_zero = np.sum(ids==0)

        # Split ID into particle ID and hash key
        key = np.right_shift(ids, 34)
        ids = ids - np.left_shift(key, 34)

        # Note: hash table size and max ID hard coded here
        if np.any(key < 0) or np.any(key >= 256**3):
            raise SanityCheckFailedException("Hash key out of range")
        if np.any(ids<0) or np.any(ids>2160**3):
            raise SanityCheckFailedException("Particle ID out of range")
        if nr_zero > 1:
            raise SanityCheckFailedException("Found multiple zero IDs")

        # Return None if everything looks ok
        return None
        

''')], '''
from virgo.formats.subfind_lgadget2 import SubIDsFile
def make(ids):
    write("f", ("<i4", [2, len(ids), 4, 1]), ("<u8", ids))
    return SubIDsFile("f")
check(not raises(make([5, 0, 7 << 34 | 3])), "alarm on a good file")
check(raises(make([5, 0, 0])), "two zeros accepted")
check(raises(make([5, 0, 7 << 34])), "two particles with ID zero accepted")
''')
bug("b29-no-wrap", "a particle exactly on the far edge of the box in a file of cells at the near edge",
    "the snapshot is refused although the particle lies on the edge of its cell, because the box is periodic",
    [(LG, '''            ind = dx>0.5*boxsize
            dx[ind] = boxsize - dx[ind]
''', '''            ind = dx>boxsize
            dx[ind] = 2*boxsize - dx[ind]
''')], '''
from virgo.formats.subfind_lgadget2 import SnapshotFile
import virgo.formats.subfind_lgadget2 as m
def make(x):
    rec = lambda *p: b"".join(np.asarray(v, dtype=d).tobytes() for d, v in p)
    h = rec(("<u4", [0, 1, 0, 0, 0, 0]), ("<f8", np.zeros(6)), ("<f8", [0.5, 1.0]), ("<i4", [0, 0]), ("<u4", [0, 1000, 0, 0, 0, 0]), ("<i4", [0, 1]),
            ("<f8", [64.0, 0.25, 0.75, 0.73]), ("<i4", [0, 0, 64]), ("u1", np.zeros(84)))
    blocks = [h, rec(("<f4", [x, 4.0, 4.0])), rec(("<f4", [1, 2, 3])), rec(("<u8", [7])), rec(("<i4", [0, 0])), rec(("<i4", [0]))]
    with open("f", "wb") as g:
        for b in blocks:
            n = np.array(len(b), "<i4").tobytes()
            g.write(n + b + n)
    return SnapshotFile("f")
check(not raises(make(4.0)), "alarm on a good file")
check(not raises(make(64.0)), "alarm on a particle on the edge of the periodic box")
check(raises(make(40.0)), "particle in a wrong cell accepted")
''')
bug("b29-few-subs", "a group with exactly one subgroup whose FirstSub is damaged",
    "pointers of groups with a single subgroup are not checked",
    [(L3, "        ind = nsubs > 0\n", "        ind = nsubs > np.minimum(1, firstsub)\n")], '''
from virgo.formats.subfind_lgadget3 import SubTabFile
def make(first):
    f = lambda n: ("<f4", np.ones(n))
    ng, ns = 2, 3
    h = [("<i4", ng), ("<i8", ng), ("<i4", 20), ("<i8", 20), ("<i4", 1), ("<i4", ns), ("<i8", ns)]
    g = [("<i4", [10, 10]), ("<i4", [0, 10]), ("<i8", [0, 1]), f(3 * ng), f(3 * ng), f(3 * ng), f(ng), f(ng), f(ng), f(ng), ("<i4", [2, 1]), ("<i4", first)]
    s = [("<i4", [2, 2, 2]), ("<i4", [0, 5, 10]), ("<i8", [0, 0, 1]), ("<i8", [0, 1, 0])] + [f(3 * ns)] * 4 + [f(ns)] * 4 + [f(ns), f(ns), f(9 * ns)]
    write("f", *(h + g + s))
    return SubTabFile("f")
check(not raises(make([0, 2])), "alarm on a good file")
check(raises(make([5, 2])), "subgroups out of range accepted")
check(raises(make([0, 5])), "subgroup out of range accepted")
''')
bug("b29-type-sum", "a group_tab file in which the numbers by type of one group are too large by as much as those of another are too small",
    "lengths are compared with the sum over all groups only",
    [(PG, "        if np.any(np.sum(grouplentype, axis=1, dtype=np.int64) != grouplen):", "        if np.sum(grouplentype, dtype=np.int64) != np.sum(grouplen, dtype=np.int64):")], '''
from virgo.formats.subfind_pgadget3 import GroupTabFile
def make(lt, mt):
    write("f", ("<i4", [2, 2, 30]), ("<i8", 30), ("<i4", 1), ("<i4", [10, 20]), ("<u4", [0, 10]), ("<f4", [5.0, 10.0]), ("<f4", np.ones(12)), ("<i4", lt), ("<f4", mt))
    return GroupTabFile("f")
mt = [[0, 5, 0, 0, 0, 0], [0, 10, 0, 0, 0, 0]]
check(not raises(make([[0, 6, 0, 0, 4, 0], [0, 20, 0, 0, 0, 0]], mt)), "alarm on a good file")
check(raises(make([[0, 6, 0, 0, 4, 0], [0, 21, 0, 0, 0, 0]], mt)), "one particle too many accepted")
check(raises(make([[0, 6, 0, 0, 3, 0], [0, 21, 0, 0, 0, 0]], mt)), "lengths 9 and 21 accepted for 10 and 20")
''')
