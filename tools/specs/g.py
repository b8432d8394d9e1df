SW = "python/virgo/formats/swift.py"
PRE = '''import os, sys, warnings
warnings.simplefilter("ignore")
import numpy as np, h5py
sys.path.insert(0, "/repo/python")
from virgo.formats.swift import SwiftSnapshot
def check(ok, m):
    if not ok:
        print("FAIL", m); sys.exit(1)
def make(name, ul, a=0.5):
    one = lambda v: np.array([float(v)])
    with h5py.File(name, "w") as f:
        g = f.create_group("Cosmology")
        for k, v in dict(h=0.7, Omega_b=0.05, Omega_lambda=0.7, Omega_m=0.3, Omega_r=0.0, w_0=-1.0, w_a=0.0, Redshift=1/a-1).items():
            g.attrs[k] = one(v)
        g.attrs["Scale-factor"] = one(a); g.attrs["Cosmological run"] = np.array([1]); g.attrs["H0 [internal units]"] = one(70.0)
        g = f.create_group("PhysicalConstants/CGS")
        g.attrs["parsec"], g.attrs["solar_mass"], g.attrs["newton_G"] = one(3.0857e18), one(1.98841e33), one(6.6743e-8)
        g = f.create_group("Units")
        for k, v in (("length in cgs (U_L)", ul), ("mass in cgs (U_M)", 2e43), ("time in cgs (U_t)", 3e19), ("temperature in cgs (U_T)", 1.0), ("current in cgs (U_I)", 1.0)):
            g.attrs["Unit " + k] = one(v)
        d = f.create_dataset("PartType0/Coordinates", data=np.arange(6.0).reshape(2, 3) + 1)
        for x in "ILMTt":
            d.attrs["U_%s exponent" % x] = one(x == "L")
        d.attrs["a-scale exponent"], d.attrs["h-scale exponent"] = one(1), one(0)
        d.attrs["Conversion factor to CGS (not including cosmological corrections)"] = one(ul)
        d.attrs["Conversion factor to physical CGS (including cosmological corrections)"] = one(ul * a)
def cgs(f):
    return float(f["PartType0/Coordinates"][0, 0].in_cgs().value)
def near(x, y):
    return abs(x / y - 1) < 1e-6
'''
BUGS = [
dict(id="b28-registry-cache", prop="C28", edits=[(SW, '''    # Read snapshot metadata
    physical_constants_cgs''', '''    # Setting up the units takes a while, so keep them for other objects
    # which use the same file
    key = (snap.file.filename, snap.name)
    if key in _registry_cache:
        return _registry_cache[key]

    # Read snapshot metadata
    physical_constants_cgs'''), (SW, '''cm**3/unyt.g/unyt.s**2, registry=reg)

    return reg
''', '''cm**3/unyt.g/unyt.s**2, registry=reg)

    _registry_cache[key] = reg
    return reg
'''), (SW, '''def soap_unit_registry_from_snapshot(snap):
''', '''# Unit registries which have been set up already
_registry_cache = {}


def soap_unit_registry_from_snapshot(snap):
''')], needs="a file which is replaced by one with other units under the same name while the program runs", breaks="the new file's data has the old file's unit lengths, expansion factor etc.",
     demo=PRE + '''make("a.hdf5", 3e24)
f = SwiftSnapshot("a.hdf5", "r")
check(near(cgs(f), 1.5e24), "first")
f.close()
make("b.hdf5", 1e21, 0.25)
os.replace("b.hdf5", "a.hdf5")
f = SwiftSnapshot("a.hdf5", "r")
g = f.get_unit("snap_length")
check(near(float((1.0 * g).in_cgs().value), 1e21), "unit of length")
check(near(cgs(f), 0.25e21), "second")
print("ok")
'''),
dict(id="b28-units-cache", prop="C28", edits=[(SW, '''        data = self.obj[key]
        if self.mode == "soap":
            units =  soap_units_from_attributes(self.attrs, self.soap_registry)        
''', '''        data = self.obj[key]
        if self.mode == "soap":
            units = self.unit_cache.get(self.obj.name)
            if units is None:
                units = soap_units_from_attributes(self.attrs, self.soap_registry)
                self.unit_cache[self.obj.name] = units
'''), (SW, '''class SwiftDataset(SwiftBaseWrapper):
    
''', '''class SwiftDataset(SwiftBaseWrapper):

    # Units of the datasets which have been read, by name
    unit_cache = {}

''')], needs="two files in which data of the same name is in different units", breaks="data of the second file has the units of the first",
     demo=PRE + '''make("a.hdf5", 3e24)
make("b.hdf5", 1e24, 1.0)
with h5py.File("b.hdf5", "r+") as f:
    # the same with physical coordinates
    f["PartType0/Coordinates"].attrs["a-scale exponent"] = np.array([0.0])
    f["PartType0/Coordinates"].attrs["U_L exponent"] = np.array([2.0])
    for x in ("(not", "physical"):
        for k in list(f["PartType0/Coordinates"].attrs):
            if x in k:
                f["PartType0/Coordinates"].attrs[k] = np.array([1e48])
a, b = SwiftSnapshot("a.hdf5", "r"), SwiftSnapshot("b.hdf5", "r")
check(near(cgs(a), 1.5e24), "first")
v = b["PartType0/Coordinates"][0, 0]
import unyt
check(v.units.dimensions == unyt.dimensions.area, "dimensions")
check(near(cgs(b), 1e48), "second")
print("ok")
'''),
dict(id="b28-lost-attribute", prop="C28", edits=[(SW, '''        for name, value in self.obj.attrs.items():
            self.attrs[name] = value
''', '''        for name in self.obj.attrs:
            try:
                self.attrs[name] = self.obj.attrs[name]
            except OSError:
                # e.g. types which h5py can't handle
                continue
'''), (SW, '''        unit = unyt.Unit(baseunit, registry=registry)
        exponent = attrs["U_%s exponent" % symbol][0]
''', '''        unit = unyt.Unit(baseunit, registry=registry)
        exponent = attrs.get("U_%s exponent" % symbol, (0.0,))[0]
''')], needs="an attribute of the dataset which can't be read at that moment (an I/O error)", breaks="the data is returned with units of other dimensions",
     demo=PRE + '''make("a.hdf5", 3e24)
f = SwiftSnapshot("a.hdf5", "r")
real = h5py.AttributeManager.__getitem__
fail = [0]
def attr(self, name):
    if name == "U_L exponent" and fail[0]:
        fail[0] -= 1
        raise OSError(5, "Input/output error")
    return real(self, name)
h5py.AttributeManager.__getitem__ = attr
fail[0] = 1
try:
    v = f["PartType0/Coordinates"][0, 0]
except Exception as e:
    print("failed:", e)
else:
    import unyt
    check(v.units.dimensions == unyt.dimensions.length, "units %s" % v.units)
check(near(cgs(f), 1.5e24), "afterwards")
print("ok")
'''),
]
