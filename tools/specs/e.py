W = "fortran/hdf5_wrapper/src/"
PRE = '''import os, sys, subprocess, shutil, signal, resource
L = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
def fail(m):
    print("FAIL", m); sys.stdout.flush(); os._exit(1)
def tool(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: fail(r.stdout[-2000:])
def build(body, decl=""):
    e = dict(os.environ, CC="/usr/bin/gcc", FC="/usr/bin/gfortran", FFLAGS="-fallow-argument-mismatch -w")
    shutil.copytree("/repo/fortran/hdf5_wrapper", "src")
    tool(["cmake", "-S", "src", "-B", "b", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_LIBRARY_PATH=" + L], env=e)
    tool(["make", "-C", "b", "hdfwrapper"], env=e)
    open("p.f90", "w").write("program p\\n use hdf5_wrapper\\n implicit none\\n integer :: f, g, h, i\\n" + decl + "\\n call signal(25,1)\\n" + body + "\\n write(*,*)'***Finished'\\nend program p\\n")
    tool(["/usr/bin/gfortran", "-w", "-fallow-argument-mismatch", "-Ib/include", "-I/usr/include/hdf5/serial", "p.f90", "-o", "p", "-Lb/lib", "-lhdfwrapper", "-L" + L, "-lhdf5_fortran", "-lhdf5",
          "-Wl,-rpath," + os.path.abspath("b/lib")])
def run(size=None):
    def limit():
        if size is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    r = subprocess.run(["./p"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limit, timeout=60, env=dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE"))
    print(r.returncode, r.stdout)
    return r.returncode, r.stdout
def good():
    rc, out = run()
    if rc or "***Finished" not in out or "***Abort" in out or "WRONG" in out: fail("output")
'''
def P(body): return PRE + body + "\nprint('OK')\n"
BUGS = [
dict(id="b20-cache-name", prop="C20", timeout=200, edits=[(W + "read_dataset.inc", """    if(trim(adjustl(fname_table(ifile))).ne.trim(adjustl(open_file_name)) &
         .or.trim(adjustl(name)).ne.trim(adjustl(open_dset_name)))then
""", """    if(trim(adjustl(name)).ne.trim(adjustl(open_dset_name)))then
""")],
 needs="two files open at the same time, and datasets of the same name read from one after the other", breaks="the second read returns the other file's data",
 demo=P('''
build("""
 call hdf5_create_file(f,"a.hdf5")
 call hdf5_create_file(g,"b.hdf5")
 call hdf5_write_data(f,"D",(/1,2,3/))
 call hdf5_write_data(g,"D",(/4,5,6/))
 call hdf5_read_data(f,"D",x)
 if(any(x.ne.(/1,2,3/)))write(*,*)"WRONG"
 call hdf5_read_data(g,"D",x)
 if(any(x.ne.(/4,5,6/)))write(*,*)"WRONG"
 call hdf5_close_file(f)
 call hdf5_close_file(g)
""", "integer :: x(3)")
good()
''')),
dict(id="b20-extend", prop="C20", timeout=200, edits=[(W + "write_dataset.inc", """          max(file_dims(1:file_rank), start(1:file_rank)+count(1:file_rank)-1)
""", """          start(1:file_rank)+count(1:file_rank)-1
""")],
 needs="an extensible dataset extended in one dimension by a write which doesn't reach the end of another", breaks="the dataset shrinks in the other dimension, its data is lost",
 demo=P('''
build("""
 do i=1,12
  x(i,1)=i
 end do
 y=reshape(x,(/3,4/))
 call hdf5_create_file(f,"a.hdf5")
 call hdf5_write_data(f,"D",y,extensible=.true.)
 call hdf5_write_data(f,"D",(/100/),start=(/1,5/),count=(/1,1/))
 z=0
 call hdf5_read_data(f,"D",z(1:3,1:4),start=(/1,1/),count=(/3,4/))
 if(any(z(:,1:4).ne.y))write(*,*)"WRONG"
 call hdf5_close_file(f)
""", "integer :: x(12,1), y(3,4), z(3,5)")
good()
''')),
dict(id="b20-read-corner", prop="C20", timeout=200, edits=[(W + "read_dataset.inc", """       memspace_dims(j) = eff_array_dims(i)
""", """       memspace_dims(j) = eff_read_dims(i)
""")],
 needs="a multidimensional dataset read into an array which is larger in the first dimension", breaks="the elements are scrambled",
 demo=P('''
build("""
 do i=1,12
  x(i,1)=i
 end do
 y=reshape(x,(/3,4/))
 call hdf5_create_file(f,"a.hdf5")
 call hdf5_write_data(f,"D",y)
 z=0
 call hdf5_read_data(f,"D",z)
 if(any(z(1:3,1:4).ne.y).or.any(z(4:5,:).ne.0))write(*,*)"WRONG"
 call hdf5_close_file(f)
""", "integer :: x(12,1), y(3,4), z(5,5)")
good()
''')),
dict(id="b20-write-error", prop="C20", timeout=200, edits=[(W + "write_dataset.inc", """  if(hdf_err.ne.0)call hdf5_abort( &
       'Unable to write dataset in write_data()',&
""", """  if(hdf_err.gt.0)call hdf5_abort( &
       'Unable to write dataset in write_data()',&
""")],
 needs="a disk which is full for a while, when an array is written", breaks="the array is not in the file, the program ends normally",
 demo=P('''
build("""
 x=7
 call hdf5_create_file(f,"a.hdf5")
 lim(1)=20000
 lim(2)=20000000
 i=setrlimit(1,lim)
 call hdf5_write_data(f,"D",x)
 lim(1)=20000000
 i=setrlimit(1,lim)
 call hdf5_close_file(f)
""", """real(8) :: x(30000)
 integer(8) :: lim(2)
 interface
  integer(c_int) function setrlimit(what,lim) bind(C,name="setrlimit")
   use iso_c_binding
   integer(c_int), value :: what
   integer(8) :: lim(2)
  end function
 end interface""")
rc, out = run(20000000)
if rc == 0 and "***Finished" in out and "***Abort" not in out:
    r = subprocess.run([sys.executable, "-c", "import h5py; assert (h5py.File('a.hdf5')['D'][:]==7).all()"])
    if r.returncode: fail("the data is not there")
''')),
dict(id="b20-handle-reuse", prop="C20", timeout=200, edits=[(W + "hdf5_wrapper.F90", """    read_only(handle)=.false.
    if(present(readonly))then
""", """    if(present(readonly))then
""")],
 needs="a file opened read only and closed, then another one opened for writing with no readonly argument or .false., with the same handle", breaks="writing to it is refused",
 demo=P('''
build("""
 call hdf5_create_file(f,"a.hdf5")
 call hdf5_write_data(f,"D",5)
 call hdf5_close_file(f)
 call hdf5_open_file(f,"a.hdf5",readonly=.true.)
 call hdf5_close_file(f)
 call hdf5_open_file(f,"a.hdf5")
 call hdf5_write_data(f,"E",6)
 call hdf5_close_file(f)
""")
good()
''')),
]
