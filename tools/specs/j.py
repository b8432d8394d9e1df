ns_i = {}
exec(open("/verif/tools/specs/i.py").read().split("\nBUGS = [")[0], ns_i)
globals().update({k: v for k, v in ns_i.items() if not k.startswith("__")})
ns_e = {}
exec(open("/verif/tools/specs/e.py").read(), ns_e)
PF = ns_e["P"]
W = "fortran/hdf5_wrapper/src/"
BUGS = [
dict(id="b14-tie-order", prop="C14", np=2,
 edits=[(MT, """    for recv_nr in range(total_nr_recv):

        # Get the local index of the halo at snap1
        local_halo_nr = grnr1[recv_nr] - local_offset
        assert local_halo_nr >= 0
        assert local_halo_nr < local_size

        # Check if the received count is higher than the highest so far
        if unique_grnr_count_recv[recv_nr] > matched_count[local_halo_nr]:
            # We have a new highest count so far
            matched_grnr2[local_halo_nr] = grnr2[recv_nr]
            matched_count[local_halo_nr] = unique_grnr_count_recv[recv_nr]
        elif unique_grnr_count_recv[recv_nr] == matched_count[local_halo_nr]:
            # In case of a tie go for lowest group number
            if(grnr2[recv_nr] <  matched_grnr2[local_halo_nr]):
                matched_grnr2[local_halo_nr] = grnr2[recv_nr]
                matched_count[local_halo_nr] = unique_grnr_count_recv[recv_nr]
                
""", """    assert np.all((grnr1 >= local_offset) & (grnr1 < local_offset + local_size))

    # Find the pair with the highest count for each halo. Pairs arrive in order
    # of group number so in case of a tie this is the lowest group number.
    order = np.argsort(-unique_grnr_count_recv)
    _, first = np.unique(grnr1[order], return_index=True)
    best = order[first]
    matched_grnr2[grnr1[best] - local_offset] = grnr2[best]
    matched_count[grnr1[best] - local_offset] = unique_grnr_count_recv[best]

"""), (MT, "    # Loop over received pairs\n", "    # Get received pairs\n")],
 needs="a tie, and more than 16 pairs of halos on a rank (the default sort is not stable)", breaks="the match is not the lowest numbered halo",
 demo=D("""
import virgo.mpi.merger_tree as mt
# 40 halos: equal numbers of particles of each go to each of halos 3i+2, 3i+1 and 3i
n = 40
c = [1 + i * 7 % 5 for i in range(n)]
g1 = np.repeat(np.arange(n), [3 * x for x in c])
g2 = np.concatenate([np.repeat([3*i+2, 3*i+1, 3*i], c[i]) for i in range(n)])
ids = np.arange(len(g1))
r = np.random.RandomState(1).permutation(len(g1))
k = len(g1) // 2
h = slice(0, k) if rank == 0 else slice(k, None)
m = mt.match_halos(g1[r][h], ids[r][h], g2[h], ids[h], n//2, comm=comm)
if m.tolist() != [3*i for i in range(rank*n//2, (rank+1)*n//2)]: fail(str(m))
""")),
dict(id="b07-type-leak", prop="C07", np=1, timeout=120,
 edits=[(PS, """    if method == "hypercube":
        #
        # Loop over pairs of processes""", """    # Nothing to do if this rank has no data to send or receive
    if np.sum(send_count) == 0 and np.sum(recv_count) == 0:
        return

    if method == "hypercube":
        #
        # Loop over pairs of processes""")],
 needs="repeated exchanges in which a rank takes no part", breaks="two MPI datatypes are leaked each time",
 demo=D("""
import resource
t = np.dtype([("a", "i8"), ("b", "f4")])
e = np.zeros(0, dtype=t)
z = np.zeros(1, dtype=int)
def use():
    for i in range(40000):
        psort.my_alltoallv(e, z, z, e, z, z, comm=comm)
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
use()
a, b = use(), use()
print(a, b)
if b - a > 5000: fail("40000 calls take %d kB" % (b - a))
""")),
dict(id="b20-attr-keep", prop="C20", timeout=200,
 edits=[(W + "write_attribute.inc", """            call h5eset_auto_f(0, hdf_err)
            call h5adelete_f(loc_id,attr_name,hdf_err)
            if (HDF_ERROR_SUPPRESS .eq. 0) call h5eset_auto_f(1, hdf_err)
         endif
      endif

      call h5acreate_f(loc_id, attr_name, dtype_id, dspace_id, &
            attr_id, hdf_err, H5P_DEFAULT_F) 
""", """            call h5aexists_f(loc_id, attr_name, keep, hdf_err)
            if(keep)then
               ! No need to delete an attribute which has the right size
               call h5aopen_f(loc_id, attr_name, attr_id, hdf_err)
               call h5aget_storage_size_f(attr_id, old_size, hdf_err)
               call h5sget_simple_extent_npoints_f(dspace_id, new_size, hdf_err)
               call h5tget_size_f(dtype_id, type_size, hdf_err)
               keep = (old_size.eq.new_size*type_size)
               if(.not.keep)then
                  call h5aclose_f(attr_id, hdf_err)
                  call h5adelete_f(loc_id,attr_name,hdf_err)
               endif
            endif
         endif
      endif

      if(.not.keep)call h5acreate_f(loc_id, attr_name, dtype_id, dspace_id, &
            attr_id, hdf_err, H5P_DEFAULT_F) 
"""), (W + "write_attribute.inc", """      ! If overwrite is set, delete any attribute at this location
""", """      ! If overwrite is set, replace any attribute at this location
      keep = .false.
"""), (W + "write_attribute.inc", """      integer                         :: itype
      logical, optional               :: overwrite
""", """      integer                         :: itype
      logical, optional               :: overwrite
      logical                         :: keep
      integer(hsize_t)                :: old_size, new_size
      integer(size_t)                 :: type_size
""")],
 needs="an attribute overwritten by one of another type or shape with the same size in bytes", breaks="the values are converted to the old type, or keep the old shape",
 demo=PF('''
build("""
 call hdf5_create_file(f,"a.hdf5")
 call hdf5_create_group(f,"G")
 call hdf5_write_attribute(f,"G/A",7)
 call hdf5_write_attribute(f,"G/A",1.5,overwrite=.true.)
 call hdf5_read_attribute(f,"G/A",x)
 if(x.ne.1.5)write(*,*)"WRONG"
 call hdf5_close_file(f)
""", "real :: x")
good()
''')),
]
