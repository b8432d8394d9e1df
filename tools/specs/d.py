HD = "consistency_check/hash/hash_dirs_mpi.py"
PRE = '''import os, sys, subprocess, hashlib
S = "/repo/consistency_check/hash/hash_dirs_mpi.py"
def fail(m):
    print("FAIL", m); sys.stdout.flush(); os._exit(1)
def run(*a):
    r = subprocess.run([sys.executable, S, "base"] + list(a), timeout=40, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode
def out():
    if not os.path.exists("o.txt"): return None
    return dict(reversed(l.split(None, 1)) for l in open("o.txt").read().split("\\n") if l and not l.startswith("#"))
def put(name, data):
    os.makedirs(os.path.dirname(name), exist_ok=True)
    open(name, "wb").write(data)
md5 = lambda b: hashlib.md5(b).hexdigest()
'''
def P(body): return PRE + body + "\nprint('OK')\n"
BUGS = [
dict(id="b19-null", prop="C19", edits=[(HD, "                    if name not in self.cache and val is not None:", "                    if name not in self.cache:")],
 needs="a file which can't be read during a run which records to a database, and a resumed run after it can be read again", breaks="the failure is recorded as the file's hash and the resumed run does not read the file",
 demo=P("""
put("base/a", b"1"); os.symlink("../there", "base/b")
run("--database", "d.db", "--outfile", "o.txt")
if out() != {"a": md5(b"1"), "b": "UNREADABLE"}: fail(str(out()))
put("./there", b"2")
run("--database", "d.db", "--outfile", "o.txt", "--resume")
if out() != {"a": md5(b"1"), "b": md5(b"2")}: fail(str(out()))
""")),
dict(id="b19-type", prop="C19", edits=[(HD, 'where basedir=? and hash_type=?", (basedir, hash_type))', 'where basedir=?", (basedir,))')],
 needs="a database with hashes of another type", breaks="hashes of the wrong type are reported as the hashes of files",
 demo=P("""
import sqlite3
put("base/a", b"1"); put("base/b", b"2")
run("--database", "d.db", "--outfile", "o.txt")
c = sqlite3.connect("d.db")
c.execute("insert into hashes values('base','a','sha1',?)", (hashlib.sha1(b"1").hexdigest(),))
c.execute("update hashes set hash='0' where path='b'")
c.commit(); c.close()
os.unlink("o.txt")
run("--database", "d.db", "--outfile", "o.txt", "--type", "sha1", "--resume")
if out() != {"a": hashlib.sha1(b"1").hexdigest(), "b": hashlib.sha1(b"2").hexdigest()}: fail(str(out()))
""")),
dict(id="b19-read-error", prop="C19", edits=[(HD, "        data = f.read(buffer_size)\n", "        try:\n            data = f.read(buffer_size)\n        except IOError:\n            data = b\"\"\n")],
 needs="an I/O error while a file is being read", breaks="the hash of the part of the file which could be read is reported as the file's hash",
 demo=P("""
put("base/a", b"1"); os.symlink("/proc/self/mem", "base/b")
run("--outfile", "o.txt")
if out() != {"a": md5(b"1"), "b": "UNREADABLE"}: fail(str(out()))
""")),
dict(id="b19-own-output", prop="C19", edits=[(HD, "rel_path == os.path.normpath(os.path.relpath(all_dirs_file, basedir)):", "rel_path == os.path.normpath(all_dirs_file):")],
 needs="an output file in the tree, left by an earlier run, and a base directory other than the current one", breaks="the program's own output file is listed, with the hash of something it no longer contains",
 demo=P("""
put("base/a", b"1")
for i in range(2):
    run("--outfile", "base/o.txt")
    os.path.exists("o.txt") or os.symlink("base/o.txt", "o.txt")
    if out() != {"a": md5(b"1")}: fail(str(out()))
""")),
]
