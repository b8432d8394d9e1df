"""Generates the Fortran program which performs a script of operations through the HDF5 wrapper"""

TYPES = {1: ("i4", "integer*4", 4), 2: ("i8", "integer*8", 8), 3: ("r4", "real*4", 4), 4: ("r8", "real*8", 8), 5: ("st", None, 0)}
MAXRANK = 7

# integers of an operation (1 based, as in Fortran)
P = dict(op=1, slot=2, type=3, rank=4, strlen=5, dims=6, flags=13, gzip=14, nsel=15, start=16, count=23, init=30, chunk=37, strided=44, a=45, b=46)
F_SEL, F_INIT, F_EXT, F_EXT_VALUE, F_OVER, F_OVER_VALUE, F_GZIP, F_CHUNK = [1 << k for k in range(8)]

OPS = dict(end=0, create=1, open=2, close=3, write=4, read=5, wattr=6, rattr=7, dims=8, type=9, group=10, ldsets=11, lgroups=12, lattrs=13,
           config=14, h5open=15, h5close=16, open_default=17, cycle=18)


def source():
    o = []
    w = o.append
    w("module c20_ops")
    w("  use hdf5")
    w("  use hdf5_wrapper")
    w("  implicit none")
    w("contains")
    w("""
  subroutine options(p, st, ct, is, ck, gz, ov, ex)
    integer :: p(64)
    integer, allocatable :: st(:), ct(:), is(:), ck(:), gz
    logical, allocatable :: ov, ex
    integer :: f
    f = p(13)
    if(btest(f,0))then
       st = p(16:15+p(15))
       ct = p(23:22+p(15))
    endif
    if(btest(f,1)) is = p(30:29+p(15))
    if(btest(f,2))then
       allocate(ex)
       ex = btest(f,3)
    endif
    if(btest(f,4))then
       allocate(ov)
       ov = btest(f,5)
    endif
    if(btest(f,6))then
       allocate(gz)
       gz = p(14)
    endif
    if(btest(f,7)) ck = p(37:36+p(15))
  end subroutine options
""")
    for t, (tn, ft, size) in TYPES.items():
        for r in range(MAXRANK + 1):
            colons = ",".join([":"] * r)
            alloc = ",".join("p(%d)" % (6 + i) for i in range(r))
            alloc2 = ",".join("2*p(%d)" % (6 + i) for i in range(r))
            sl = ",".join("1:2*p(%d)-1:2" % (6 + i) for i in range(r))
            ty = ft if ft else "character(len=p(5))"
            nb = "int(%d,8)" % size if ft else "int(p(5),8)"
            for i in range(r):
                nb += "*p(%d)" % (6 + i)
            for kind in ("write", "read", "wattr", "rattr"):
                w("  subroutine %s_%s_%d(h, name, p)" % (kind, tn, r))
                w("    integer :: h, p(64)")
                w("    character(len=*) :: name")
                if r:
                    w("    %s, allocatable :: a(%s), b(%s)" % (ty, colons, colons))
                else:
                    w("    %s :: a" % ty)
                w("    integer, allocatable :: st(:), ct(:), is(:), ck(:), gz")
                w("    logical, allocatable :: ov, ex")
                w("    integer*8 :: nb")
                w("    call options(p, st, ct, is, ck, gz, ov, ex)")
                w("    nb = %s" % nb)
                if r:
                    w("    allocate(a(%s))" % alloc)
                w("    call c20_fill(a)")
                call = {"write": "call hdf5_write_data(h, name, %s, gzip=gz, overwrite=ov, extensible=ex, start=st, count=ct, initial_size=is, chunk_size=ck)",
                        "read": "call hdf5_read_data(h, name, %s, st, ct)",
                        "wattr": "call hdf5_write_attribute(h, name, %s, ov)",
                        "rattr": "call hdf5_read_attribute(h, name, %s)"}[kind]
                def wrapped(arg, ind):
                    c = call % arg
                    w(ind + c)
                if r:
                    w("    if(p(44).eq.1)then")
                    w("      allocate(b(%s))" % alloc2)
                    w("      b(%s) = a" % sl)
                    wrapped("b(%s)" % sl, "      ")
                    if kind in ("read", "rattr"):
                        w("      a = b(%s)" % sl)
                    w("    else")
                    wrapped("a", "      ")
                    w("    endif")
                else:
                    wrapped("a", "    ")
                if kind in ("read", "rattr"):
                    w("    call c20_put(a, nb)")
                w("  end subroutine")
    w("end module c20_ops")
    w("""
program c20
  use hdf5
  use hdf5_wrapper
  use c20_ops
  implicit none
  integer :: p(64), h(64), i, n, rank, dims(16), nsize, err
  integer*8 :: nb
  character(len=2000) :: name
  character(len=32) :: dtype
  character(len=64), allocatable :: names(:)
  h = -1
  call c20_start()
  do
    call c20_next(p, name)
    n = p(45)
    select case(p(1))
    case(0)
      exit
    case(1)
      call hdf5_create_file(h(p(2)), name(1:n))
    case(2)
      call hdf5_open_file(h(p(2)), name(1:n), readonly=(p(46).eq.1))
    case(17)
      call hdf5_open_file(h(p(2)), name(1:n))
    case(3)
      call hdf5_close_file(h(p(2)))
    case(8)
      dims = -1
      call hdf5_get_dimensions(h(p(2)), name(1:n), rank, dims)
      dims(16) = rank
      nb = 64
      call c20_put(dims, nb)
    case(9)
      call hdf5_get_type(h(p(2)), name(1:n), dtype, nsize)
      nb = 32
      call c20_put(dtype, nb)
      nb = 4
      call c20_put(nsize, nb)
    case(10)
      call hdf5_create_group(h(p(2)), name(1:n))
    case(11,12,13)
      if(p(1).eq.11)call hdf5_list_datasets(h(p(2)), name(1:n), i)
      if(p(1).eq.12)call hdf5_list_groups(h(p(2)), name(1:n), i)
      if(p(1).eq.13)call hdf5_list_attributes(h(p(2)), name(1:n), i)
      nb = 4
      call c20_put(i, nb)
      allocate(names(i))
      names = ' '
      if(p(1).eq.11)call hdf5_list_datasets(h(p(2)), name(1:n), i, names)
      if(p(1).eq.12)call hdf5_list_groups(h(p(2)), name(1:n), i, names)
      if(p(1).eq.13)call hdf5_list_attributes(h(p(2)), name(1:n), i, names)
      nb = 64*size(names)
      call c20_put(names, nb)
      deallocate(names)
    case(14)
      HDF_VERBOSITY = p(46)
      HDF_ERROR_SUPPRESS = p(47)
    case(18)
      do i = 1, p(46)
        call hdf5_open_file(h(p(2)), name(1:n), readonly=.true.)
        call hdf5_close_file(h(p(2)))
      end do
    case(15)
      call hdf5_auto_open(.false.)
      call h5open_f(err)
    case(16)
      call h5close_f(err)""")
    for kind in ("write", "read", "wattr", "rattr"):
        w("    case(%d)" % OPS[kind])
        w("      select case(p(3)*10+p(4))")
        for t, (tn, ft, size) in TYPES.items():
            for r in range(MAXRANK + 1):
                w("      case(%d)" % (t * 10 + r))
                w("        call %s_%s_%d(h(p(2)), name(1:n), p)" % (kind, tn, r))
        w("      end select")
    w("""    end select
    call c20_done()
  end do
  write(*,*)'***Finished'
end program c20""")
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    print(source())
