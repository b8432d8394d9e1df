From 62b2ac80623855df96e7aaa908e1e33cd0773987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 01/63] hook: VIRGODC_SIM_MAX_MESSAGE_BYTES lowers the message
 size limit (off by default)

---
 python/virgo/mpi/parallel_sort.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..3d6cf7f 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -7,6 +7,7 @@ import numpy as np
 import time
 import sys
 import gc
+import os
 
 # Type to use for global indexes
 index_dtype = np.int64
@@ -15,6 +16,18 @@ index_dtype = np.int64
 default_alltoallv_method = "hypercube"
 
 
+def _sim_message_limit(nchunk, itemsize):
+    """
+    Simulation hook: if VIRGODC_SIM_MAX_MESSAGE_BYTES is set, reduce the
+    maximum number of elements per message so that the splitting of large
+    transfers can be exercised with small arrays. Does nothing otherwise.
+    """
+    limit = os.environ.get("VIRGODC_SIM_MAX_MESSAGE_BYTES")
+    if limit:
+        nchunk = min(nchunk, max(1, int(limit) // max(1, itemsize)))
+    return nchunk
+
+
 def mpi_datatype(dtype):
     """
     Return an MPI datatype corresponding to the supplied numpy type.
@@ -50,6 +63,7 @@ def my_alltoallv(sendbuf, send_count, send_offset,
     # Maximum number of elements per message: avoid messages > 2GB
     assert sendbuf.dtype == recvbuf.dtype
     nchunk = (100*1024*1024) // sendbuf.dtype.itemsize
+    nchunk = _sim_message_limit(nchunk, sendbuf.dtype.itemsize)
 
     # Get communicator to use
     from mpi4py import MPI
@@ -168,6 +182,7 @@ def sendrecv(dest, sendbuf, recvbuf, comm=None, nchunk=None):
     assert len(recvbuf.shape) == 1
     if nchunk is None:
         nchunk = (100*1024*1024) // sendbuf.dtype.itemsize
+        nchunk = _sim_message_limit(nchunk, sendbuf.dtype.itemsize)
     
     # Determine number of elements to send and receive
     nr_send_left = sendbuf.shape[0]
-- 
2.43.0


From 871aec3e90494de3133b009c40859971d26073ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 02/63] fix: receive into C ordered buffers so Fortran ordered
 or strided arrays are not returned uninitialised

repartition(), fetch_elements() and reduce_elements() received data into
arr.reshape((-1,)), which is a temporary copy if the array is not C
contiguous. np.empty_like() keeps the memory layout of its argument, so
this lost the data if the input was Fortran ordered, and
fetch_elements() lost it if a non contiguous result array was passed.
---
 python/virgo/mpi/parallel_sort.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 3d6cf7f..6a72b3b 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -259,7 +259,7 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
     my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
@@ -340,15 +340,13 @@ def fetch_elements(arr, index, result=None, comm=None):
     values = arr[index_find,...]
     del index_find
 
-    # Send values back
+    # Send values back: need a contiguous receive buffer here
+    shape = list(arr.shape)
+    shape[0] = index.shape[0]
     if result is None:
-        # Will return result, so allocate storage
-        shape = list(arr.shape)
-        shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
+        values_recv = np.empty_like(arr, shape=shape, order="C")
     else:
-        # Will put result in supplied array
-        values_recv = result
+        values_recv = np.empty_like(result, shape=shape, order="C")
 
     my_alltoallv(values.reshape((-1,)),      nvalues*recv_count, nvalues*recv_displ,
                  values_recv.reshape((-1,)), nvalues*send_count, nvalues*send_displ,
@@ -356,10 +354,12 @@ def fetch_elements(arr, index, result=None, comm=None):
     del values
 
     # Restore original order using index array
-    values_recv[idx,...] = values_recv.copy()
-
     if result is None:
+        values_recv[idx,...] = values_recv.copy()
         return values_recv
+    else:
+        # Put result in supplied array
+        result[idx,...] = values_recv
 
 
 
@@ -1084,7 +1084,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C")
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 8f25f9cc9e91445629823e2749d233a16a2dd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 03/63] fix: parallel_bincount of an empty array and of uint64
 values

If there were no values on any rank the result had one element where
numpy.bincount has none, and with uint64 values the number of bins was
computed in floating point, so that allocating the result failed.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 6a72b3b..afb7d25 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1135,7 +1135,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
         result_dtype = index_dtype
 
     # Find the maximum value in x
-    x_max = np.amax(x) if len(x) > 0 else 0
+    x_max = int(np.amax(x)) if len(x) > 0 else -1
     x_max = comm.allreduce(x_max, op=MPI.MAX)
     total_nr_bins = x_max+1
 
-- 
2.43.0


From 3b0eca7ba8d1302f9883b1ab8e8dd624f40528a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 04/63] fix: parallel_match of int64 with uint64 values
 compares them exactly

numpy promotes int64 and uint64 to float64, so values above 2^53 could
match different values, or be missed.
---
 python/virgo/mpi/parallel_sort.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index afb7d25..1deb706 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -799,6 +799,18 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     if comm.allreduce(arr2.shape[0]) == 0:
         return -np.ones(arr1.shape, dtype=index_dtype)
 
+    # Signed and unsigned 64 bit values would be compared in floating point,
+    # which can't distinguish large integers. Convert arr1 to the type of arr2
+    # and discard any matches of elements which can't be converted.
+    in_range = None
+    if (arr1.dtype.kind in "iu" and arr2.dtype.kind in "iu" and
+        np.promote_types(arr1.dtype, arr2.dtype).kind == "f"):
+        info1 = np.iinfo(arr1.dtype)
+        info2 = np.iinfo(arr2.dtype)
+        in_range = ((arr1 >= max(info1.min, info2.min)) &
+                    (arr1 <= min(info1.max, info2.max)))
+        arr1 = np.where(in_range, arr1, 0).astype(arr2.dtype)
+
     # Make a sorted copy of arr2 if necessary
     if not(arr2_sorted):
         arr2_ordered = arr2.copy()
@@ -888,6 +900,8 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     index[idx] = index_out
     del index_out
     del idx
+    if in_range is not None:
+        index[in_range==False] = -1
 
     return index
 
-- 
2.43.0


From 68756dea6a9a76f849c7aaea0f79455d7a35d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 05/63] fix: sendrecv uses the MPI datatypes it creates

Without them arrays of structured types can't be exchanged.
---
 python/virgo/mpi/parallel_sort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 1deb706..a2c7dbc 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -194,8 +194,8 @@ def sendrecv(dest, sendbuf, recvbuf, comm=None, nchunk=None):
     while (nr_send_left > 0) or (nr_recv_left > 0):
         nr_send = min(nchunk, nr_send_left)
         nr_recv = min(nchunk, nr_recv_left)
-        comm.Sendrecv(sendbuf[send_offset:send_offset+nr_send], dest,
-                      recvbuf=recvbuf[recv_offset:recv_offset+nr_recv],
+        comm.Sendrecv([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest,
+                      recvbuf=[recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv],
                       source=dest)
         send_offset  += nr_send
         nr_send_left -= nr_send
-- 
2.43.0


From 32ff3b879ba7bd4fadf77bd168c1e24a7421e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 06/63] fix: mpi_errchk aborts the job even if the error can't
 be reported

If writing the message failed (e.g. standard error is on a full disk, or
the exception has no valid text) then MPI_Abort was never called and the
other ranks could wait forever.
---
 python/virgo/mpi/errchk.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/virgo/mpi/errchk.py b/python/virgo/mpi/errchk.py
index 312fd06..b89c5d4 100644
--- a/python/virgo/mpi/errchk.py
+++ b/python/virgo/mpi/errchk.py
@@ -15,11 +15,14 @@ def mpi_errchk(func):
             return func(*args, **kwargs)
         except (Exception, KeyboardInterrupt) as e:
             from mpi4py import MPI
-            sys.stderr.write("\n\n*** EXCEPTION ***\n"+str(e)+" on rank "+str(MPI.COMM_WORLD.Get_rank())+"\n\n")
-            traceback.print_exc(file=sys.stdout)
-            sys.stderr.write("\n\n")
-            sys.stderr.flush()
-            MPI.COMM_WORLD.Abort(1)
+            try:
+                sys.stderr.write("\n\n*** EXCEPTION ***\n"+str(e)+" on rank "+str(MPI.COMM_WORLD.Get_rank())+"\n\n")
+                traceback.print_exc(file=sys.stdout)
+                sys.stderr.write("\n\n")
+                sys.stderr.flush()
+            finally:
+                # Must abort even if the error could not be reported
+                MPI.COMM_WORLD.Abort(1)
     return func_wrapper
 
 
-- 
2.43.0


From de236f41ae7a3f6ec583be8bb21240d221c86d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 07/63] fix: collective HDF5 I/O with a buffer smaller than a
 row or zero size rows

---
 python/virgo/mpi/parallel_hdf5.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..1ab0edf 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -138,8 +138,9 @@ def collective_read(dataset, comm, buffer_size=None):
         for s in dataset.shape[1:]:
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
-        # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        # Compute number of iterations this task needs.
+        # Need to read at least one element, and elements may have zero size.
+        buffer_size_elements = max(buffer_size // max(element_size, 1), 1)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -153,6 +154,8 @@ def collective_read(dataset, comm, buffer_size=None):
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
+        if element_size == 0:
+            global_nr_iterations = 0 # There is nothing to transfer
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
             with dataset.collective:
@@ -235,7 +238,10 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    # Need to write at least one element, and elements may have zero size.
+    max_elements = max(buffer_size // max(element_size, 1), 1)
+    if element_size == 0:
+        nr_left = 0 # There is nothing to transfer
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From 1e43540e5c386b0dd02b38b949872e8999f40d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 08/63] fix: collective_read hangs on compound, boolean or
 string data if a rank has nothing left to read

---
 python/virgo/mpi/parallel_hdf5.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 1ab0edf..11fc946 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -150,6 +150,15 @@ def collective_read(dataset, comm, buffer_size=None):
         shape = list(dataset.shape)
         shape[0] = num_on_task[comm_rank]
         data = np.ndarray(shape, dtype=dataset.dtype)
+        # We need to use the low level interface here because the h5py high
+        # level interface omits zero sized reads, which causes a hang in
+        # collective mode if a rank has nothing left to read.
+        dset_id = dataset.id
+        mem_type = h5py.h5t.py_create(dataset.dtype)
+        file_space = dset_id.get_space()
+        mem_space = h5py.h5s.create_simple(data.shape)
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
         # Read the data
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
@@ -158,8 +167,15 @@ def collective_read(dataset, comm, buffer_size=None):
             global_nr_iterations = 0 # There is nothing to transfer
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            if length > 0:
+                zeros = (0,)*(len(data.shape)-1)
+                count = (length,)+tuple(data.shape[1:])
+                file_space.select_hyperslab((offset_in_file,)+zeros, count)
+                mem_space.select_hyperslab((offset_in_mem,)+zeros, count)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dset_id.read(mem_space, file_space, data, mem_type, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
-- 
2.43.0


From 3857cb57aa29677988df95ee5fa2397764f47eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 09/63] fix: collective_write raises on every rank if shapes or
 types are inconsistent

---
 python/virgo/mpi/parallel_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 11fc946..b5920fc 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -223,13 +223,13 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     # Need to have all dimensions but the first the same between ranks
     shape_local = tuple(data.shape[1:])
     shape_rank0 = tuple(comm.bcast(shape_local))
-    if shape_local != shape_rank0:
+    if comm.allreduce(shape_local != shape_rank0, op=MPI.LOR):
         raise ValueError("Inconsistent data shapes in collective_write()!")
 
     # Need to have the same data type on all ranks
     dtype_local = data.dtype
     dtype_rank0 = comm.bcast(dtype_local)
-    if dtype_local != dtype_rank0:
+    if comm.allreduce(dtype_local != dtype_rank0, op=MPI.LOR):
         raise ValueError("Inconsistent data types in collective_write()!")
 
     # Find the full shape of the new dataset
-- 
2.43.0


From 1bd26c09b38aa6fc4b2430af164d59d0892f0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 10/63] fix: MultiFile.read raises on every rank if files
 disagree on a type which can't be promoted

---
 python/virgo/mpi/parallel_hdf5.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index b5920fc..514ee42 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -460,27 +460,26 @@ class MultiFile:
 
         # Combine data from different files
         for name in data:
+
+            # Check for consistency before concatenating: an exception there
+            # would only be raised on ranks which have inconsistent files
+            inconsistent_dtype = False
+            for dset in data[name][1:]:
+                if dset.dtype != data[name][0].dtype:
+                    inconsistent_dtype = True
+            inconsistent_dtype = self.comm.allreduce(inconsistent_dtype)
+            if inconsistent_dtype:
+                raise RuntimeError(f"Inconsistent dtype for {name}")
+
             if len(data[name]) > 0:
                 if read_attributes:
                     attrs = data[name][0].attrs
-
-                inconsistent_dtype = False
-                if len(data[name]) > 1:
-                    for dset in data[name][1:]:
-                        if dset.dtype != data[name][0].dtype:
-                            inconsistent_dtype = True
-
                 data[name] = np.concatenate(data[name])
                 if read_attributes:
                     data[name] = AttributeArray(data[name], attrs=attrs)
             else:
-                inconsistent_dtype = False
                 data[name] = None
 
-            inconsistent_dtype = self.comm.allreduce(inconsistent_dtype)
-            if inconsistent_dtype:
-                raise RuntimeError(f"Inconsistent dtype for {name}")
-
         # Combine file indexes
         if file_nr is not None:
             for name in file_nr:
-- 
2.43.0


From f6990a3b869ae71ea7a2ea86268f9a7ffb34f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 11/63] fix: byte swap record types when reading binary files

---
 python/virgo/util/read_binary.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..e3296f6 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -37,6 +37,12 @@ def need_byteswap(data_endian, dtype):
 
     Some types don't have byte order, in which case we return False.
     """
+    if dtype.base != dtype:
+        dtype = dtype.base
+    if dtype.names is not None:
+        # Byte order of a record type is that of its fields
+        return any([need_byteswap(data_endian, dtype.fields[name][0])
+                    for name in dtype.names])
     if dtype.byteorder == "|":
         return False # Byte order not applicable for this type
     if data_endian not in ("<",">","="):
@@ -345,7 +351,8 @@ class BinaryDataset:
         # sure we don't return a view of the memory map because
         # we might need to close the file.
         if need_byteswap(self.endian, self.dtype):
-            array = array[key].byteswap()
+            # astype rather than byteswap, which can't handle single records
+            array = array.view(self.dtype.newbyteorder(self.endian))[key].astype(self.dtype)
         else:
             array = array[key].copy()
         # Return the result
-- 
2.43.0


From f5b52a2192febd39205c1d21279ac9340891355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 12/63] fix: toggle_byteswap applies to blocks which are
 already defined

---
 python/virgo/util/read_binary.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index e3296f6..464c78a 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -499,12 +499,10 @@ class BinaryFile(BinaryGroup):
 
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
-        if self.endian == "<":
-            self.endian = ">"
-        elif self.endian == ">":
-            self.endian = "<"
-        elif self.endian == "=":
-            self.enable_byteswap(True)
+        if big_or_little(self.endian) == "<":
+            self.set_endian(">")
+        else:
+            self.set_endian("<")
 
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
-- 
2.43.0


From 0d507383cfc90b971d24ef59a3602760f82bd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 13/63] fix: write_hdf5 copies the attributes of the file
 itself

---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 464c78a..c9e7e7c 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -218,6 +218,10 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # Copy attributes of this group
+        for attr_name in self.attrs.keys():
+            h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
@@ -249,8 +253,6 @@ class BinaryGroup(Mapping):
         # Loop over groups in this group and create in output file
         for group_name in self.groups.keys():
             new_group = h5group.create_group(group_name)
-            for attr_name in self.groups[group_name].attrs.keys():
-                new_group.attrs[attr_name] = self.groups[group_name].attrs[attr_name]
             # Recursively write sub-groups
             self.groups[group_name].write_hdf5(h5group=new_group, gzip=gzip)
 
-- 
2.43.0


From e585e5ed72ed945177e976bdfd9f845de1f3e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 14/63] fix: attributes of datasets in binary files use the
 byte order of the file

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index c9e7e7c..b74625f 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -181,6 +181,7 @@ class BinaryGroup(Mapping):
                 if tail in self.datasets[head].attrs:
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
+                new_block.endian = endian
                 self.datasets[head].attrs._items[tail] = new_block
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
-- 
2.43.0


From 60dda3405894c770060ea8ab70f58db91d42754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 15/63] fix: default mode of BinaryFile.write_binary was not a
 valid mode

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index b74625f..889e4fe 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -510,7 +510,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From adec2aec0b947b3fa16e26bd76cf7fe1d8ffcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 16/63] fix: write_hdf5 fails on datasets with no elements

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 889e4fe..9c03df7 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -236,7 +236,7 @@ class BinaryGroup(Mapping):
                 chunks = None
                 
             # Write the dataset
-            if len(src_dset.shape) >= 1:
+            if len(src_dset.shape) >= 1 and src_dset.size > 0:
                 # Array dataset
                 h5group.create_dataset(dataset_name, data=src_dset[...],
                                        shuffle=shuffle,
@@ -244,7 +244,7 @@ class BinaryGroup(Mapping):
                                        compression_opts=compression_opts,
                                        chunks=chunks)
             else:
-                # Scalar dataset
+                # Scalar or zero size dataset, which can't be chunked
                 h5group.create_dataset(dataset_name, data=src_dset[...])
 
             # Copy attributes
-- 
2.43.0


From 5a190c232706b9089a5c864d85d3c982ff54dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 17/63] fix: closing a BinaryFile closes blocks read by
 read_and_skip too

---
 python/virgo/util/read_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 9c03df7..0c240bc 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -437,6 +437,12 @@ class BinaryFile(BinaryGroup):
         self.close()
         return False
 
+    def close(self):
+        """Close the file, including any blocks from read_and_skip"""
+        BinaryGroup.close(self)
+        for block in self.all_blocks:
+            block.close()
+
     def _add_block(self, name, dtype, shape, is_attr):
 
         # Add the new data block
-- 
2.43.0


From df33443ad2ffcf14cd1383ba34d10206be18c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 18/63] fix: BinaryFile with a relative path reads another file
 after the working directory changes

---
 python/virgo/util/read_binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 0c240bc..1987790 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -424,7 +424,9 @@ class BinaryFile(BinaryGroup):
     """
     def __init__(self, fname):
         BinaryGroup.__init__(self, "")
-        self.fname = fname
+        # Absolute path, so that it still refers to the same file (including
+        # in the cache of open files) if the working directory changes
+        self.fname = os.path.abspath(fname)
         self.offset = 0
         self.endian = "="
         self.all_blocks = []
-- 
2.43.0


From f47aa4942baf59916a64b78376678b7f5227dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 19/63] fix: gadget snapshot reader accepts any sequence of
 extra datasets

---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From 47a8a710cdbbf3644761e79afa2c4ed73788466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 20/63] fix: L-Gadget2 group_ids files can't be opened

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From ad2e911a99e2dce1171249258164990d50eb8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 21/63] fix: L-Gadget2 snapshot sanity check computes a whole
 number of hash bits

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 308757936943d93c4862a3a921e6dc834da609e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 22/63] fix: Velociraptor reader works with current numpy

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..0309ed2 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    np.int64)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 5161f18e2bbc8808140f60ea8c49030da3d8a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 23/63] fix: MXXL sub_tab files can't be opened

---
 python/virgo/sims/mxxl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..de91fb0 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,12 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        if WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("Subfind outputs in type 2 binary snapshot format are not implemented")
+        if SO_BAR_INFO:
+            raise NotImplementedError("Subfind outputs with SO_BAR_INFO set are not implemented")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From 78b24685055d6821ac698f55aea1de2ef967e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 24/63] fix: L-Gadget2 Snapshot.read_region uses integer cell
 indexes

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 35474256f34cad6a2ba803e8e6cf62f43101eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:09 +0000
Subject: [PATCH 25/63] fix: Gadget-4 read_fof_group loses a particle if the
 group's last particle starts a file

---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..3cba7ba 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -306,7 +306,7 @@ class GroupOrderedSnapshot():
                             result[itype][dataset].append(snap["PartType%d/%s" % (itype, dataset)][first_to_read:last_to_read+1,...])
 
             # Check if we're done
-            if np.all(last_in_snap >= last_in_fof):
+            if np.all(last_in_snap > last_in_fof):
                 break
 
             # Advance to next file
-- 
2.43.0


From 0be9a6d1e00e15e1013189d2644ce619527d8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 26/63] fix: Gadget-4 GroupOrderedSnapshot can be opened if
 there are no groups or subgroups

---
 python/virgo/formats/subfind_gadget4.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 3cba7ba..8c83509 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -172,10 +172,11 @@ class GroupOrderedSnapshot():
         self.id_bytes   = id_bytes
 
         # Read group lengths from all files
-        self.foflentype = []
-        self.sublentype = []
-        self.firstsub   = []
-        self.nsubs      = []
+        # (start with empty arrays in case there are no groups or no subgroups)
+        self.foflentype = [np.zeros((0,6), dtype=np.int32)]
+        self.sublentype = [np.zeros((0,6), dtype=np.int32)]
+        self.firstsub   = [np.zeros((0,), dtype=np.int32)]
+        self.nsubs      = [np.zeros((0,), dtype=np.int32)]
         ifile  = 0
         nfiles = 1
         while ifile < nfiles:
-- 
2.43.0


From 6da4149d42377ad0ceab72d6786bd3fbfda9607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 27/63] fix: hash_dirs_mpi.py works with Python 3

---
 consistency_check/hash/hash_dirs_mpi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..f5d6985 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if len(data) > 0:
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
-- 
2.43.0


From 600c52f40163d36ca563cb9c51c3c0c3d0544c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 28/63] fix: hash_dirs_mpi.py reports directories which can't
 be read

---
 consistency_check/hash/hash_dirs_mpi.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index f5d6985..3ca72c5 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -41,7 +41,7 @@ class DirectoryList:
         """
         self.cache = {}
         if comm_rank == 0:
-            self.dirs         = os.walk(basedir, followlinks=True)
+            self.dirs         = os.walk(basedir, followlinks=True, onerror=self.unreadable_dir)
             self.num_finished = 0
             self.basedir      = basedir
             self.hash_type    = hash_type
@@ -76,6 +76,15 @@ class DirectoryList:
             if self.con is not None:
                 self.con.close()
 
+    def unreadable_dir(self, err):
+        """
+        Called on task zero if a directory can't be listed. The files in it
+        can't be hashed, so report the directory itself as unreadable.
+        """
+        rel_path = os.path.normpath(os.path.relpath(err.filename, self.basedir))
+        self.all_hashes[rel_path] = None
+        print("Task %4d : %s %s (Directory)" % (comm_rank, "UNREADABLE", rel_path))
+
     def store_hashes(self, hashes):
         """
         Accumulate the supplied hashes on task zero.
-- 
2.43.0


From 1f3dcd38012743c26b2df61a5d4d75a736c61a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 29/63] fix: hash_dirs_mpi.py doesn't hash the database it's
 writing

---
 consistency_check/hash/hash_dirs_mpi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 3ca72c5..d1ccacc 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -40,6 +40,7 @@ class DirectoryList:
         Initialize full list of sub-directories on rank 0
         """
         self.cache = {}
+        self.dbfile = dbfile
         if comm_rank == 0:
             self.dirs         = os.walk(basedir, followlinks=True, onerror=self.unreadable_dir)
             self.num_finished = 0
@@ -182,6 +183,10 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
             is_out_file = True
         if per_dir_file is not None and os.path.normpath(name) == os.path.normpath(per_dir_file):
             is_out_file = True
+        if dirlist.dbfile is not None:
+            db_path = os.path.normpath(os.path.relpath(dirlist.dbfile, basedir))
+            if rel_path in (db_path, db_path+"-journal"):
+                is_out_file = True
         if not(is_out_file):
             # Check if we should do this one according to include / exclude rules
             if include is None:
-- 
2.43.0


From cd6e86eea32ef06b2f8ea5af20bb3d0b420bcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 30/63] fix: hash_dirs_mpi.py reports unreadable directories
 when it's finished, so an error while printing can't be taken for an
 unreadable file

---
 consistency_check/hash/hash_dirs_mpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index d1ccacc..50eeb61 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -47,6 +47,7 @@ class DirectoryList:
             self.basedir      = basedir
             self.hash_type    = hash_type
             self.all_hashes   = {}
+            self.unreadable   = []
             self.cache        = {}
             if dbfile is not None:
                 # Connect to database, create if necessary
@@ -84,7 +85,7 @@ class DirectoryList:
         """
         rel_path = os.path.normpath(os.path.relpath(err.filename, self.basedir))
         self.all_hashes[rel_path] = None
-        print("Task %4d : %s %s (Directory)" % (comm_rank, "UNREADABLE", rel_path))
+        self.unreadable.append(rel_path)
 
     def store_hashes(self, hashes):
         """
@@ -275,6 +276,8 @@ def recursive_hash(basedir, include, exclude,
     if comm_rank == 0:
         while dirlist.process_requests():
             pass
+        for name in dirlist.unreadable:
+            print("Task %4d : UNREADABLE directory %s" % (comm_rank, name))
 
     # Write output file with all hashes
     if all_dirs_file is not None:
-- 
2.43.0


From 7d16bb9e1abb77f87c2e2b686e70a95bae72927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 31/63] fix: write_data honours extensible=.false.

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..7d9b9af 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -77,7 +77,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From 0785dde81580f7f8202f4b56be254ded1c4eeb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 32/63] fix: open_file and create_file don't use an undefined
 error status if the program opened HDF5 itself

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..a686dc5 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -304,6 +304,7 @@ contains
     if(needInit) then
        needInit = .false.
        fname_table(1:nfilemax) = '*'
+       hdf_err = 0
        if(do_open)call h5open_f(hdf_err)
        if (HDF_ERROR_SUPPRESS .eq. 0) then
           call h5eset_auto_f(1, hdf_err2)
@@ -395,6 +396,7 @@ contains
     if(needInit)then
        needInit=.false.
        fname_table(1:nfilemax) = '*'
+       hdf_err = 0
        if(do_open)call h5open_f(hdf_err)
        if (HDF_ERROR_SUPPRESS .gt. 0) then
           call h5eset_auto_f(1, hdf_err2)
-- 
2.43.0


From f40cf0c90b103305fc741b378a8bf6ab4cb7cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 33/63] fix: list_attributes works with HDF5 1.10

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index a686dc5..e6a87de 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -970,7 +970,9 @@ contains
     ! Get the names of the attributes
     if(present(attrib_names))then
        do i = 1, nattribs, 1
-          call h5aopen_idx_f(loc_id, i-1, attr_id, hdf_err)
+          ! (h5aopen_idx_f is deprecated and always fails in HDF5 1.10)
+          call h5aopen_by_idx_f(loc_id, ".", H5_INDEX_CRT_ORDER_F, &
+               H5_ITER_INC_F, int(i-1,kind=hsize_t), attr_id, hdf_err)
           if(hdf_err.ne.0) call hdf5_abort( &
                'Unable to open attribute in list_attributes()!', &
                name=name,fname=fname_table(ifile))
-- 
2.43.0


From 11d3e11a1ca3fc9469a1e30277b6eb343f85038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 34/63] fix: 7D integer datasets are written with their own
 dimensions

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From 30c75768dc83d6655e16d4e7f5079ad5f016ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 35/63] fix: an error closing a dataset, when HDF5 may still
 have to write it, isn't ignored

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90  | 3 +++
 fortran/hdf5_wrapper/src/read_dataset.inc  | 3 +++
 fortran/hdf5_wrapper/src/write_dataset.inc | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index e6a87de..3773689 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -458,6 +458,9 @@ contains
     if(open_dset.and.fname_table(ifile).eq.open_file_name)then
        call h5dclose_f(open_dset_id,   hdf_err)
        open_dset = .false.
+       if(hdf_err.ne.0)call hdf5_abort( &
+            'Unable to close dataset in close_file()!', &
+            name=open_dset_name,fname=open_file_name)
     endif
 
     if(HDF_VERBOSITY .ge. 1)then
diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..51fa30c 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -73,6 +73,9 @@
        if(open_dset)then
           open_dset = .false.
           call h5dclose_f(open_dset_id, hdf_err)
+          if(hdf_err.ne.0)call hdf5_abort( &
+               'Unable to close dataset in read_data()!', &
+               name=open_dset_name,fname=open_file_name)
        endif
     endif
     if(open_dset)then
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 7d9b9af..6847f84 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -419,6 +419,9 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   call h5sclose_f(dspace_id,hdf_err)
   call h5sclose_f(memspace_id,hdf_err)
   call h5dclose_f(dset_id, hdf_err)
+  if(hdf_err.ne.0)call hdf5_abort( &
+       'Unable to close dataset in write_data()',&
+       name=name,fname=fname_table(ifile))
 
   return
 end subroutine SUB_NAME
-- 
2.43.0


From 25a5bc9bab71fc70e1c152f0d06d82067ae2fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 36/63] fix: read_data doesn't return the old contents of an
 overwritten dataset

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 6847f84..c43bba0 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -127,6 +127,15 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
         call h5dclose_f(dset_id, hdf_err)
+        ! If it was left open by read_data, that would go on reading
+        ! the deleted dataset
+        if(open_dset)then
+           open_dset = .false.
+           call h5dclose_f(open_dset_id, hdf_err)
+           if(hdf_err.ne.0)call hdf5_abort( &
+                'Unable to close dataset in write_data()', &
+                name=open_dset_name,fname=open_file_name)
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From de4aec33da3447a640c63a2ae8dcc541246814f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 37/63] fix: read_data can read datasets, or parts of them,
 which have no elements

---
 fortran/hdf5_wrapper/src/read_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 51fa30c..970377c 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -206,7 +206,7 @@
          name=name,fname=fname_table(ifile))
 
     ! Select the part of this dataspace that will hold the data
-    if(eff_array_rank.gt.0)then
+    if(file_rank.gt.0)then ! Can't use select hyperslab on scalar dataspace
        hs_start(1:file_rank) = 0
        hs_count(1:file_rank) = read_dims(1:file_rank)
        call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
-- 
2.43.0


From e962873e4a7745ad09b9ba2cabdc1e94fc1430b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 38/63] fix: extensible or compressed datasets can be created
 with no elements

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index c43bba0..d58b0a1 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -208,7 +208,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      call h5pcreate_f(H5P_DATASET_CREATE_F, prop_id, hdf_err) 
      ! Decide on chunk size based on the initial size of the dataset
      do i = 1, file_rank, 1
-        nchunk(i) = min(file_dims(i),nchunk_max(i))
+        nchunk(i) = max(1_hsize_t,min(file_dims(i),nchunk_max(i)))
      end do
      ! Only use chunking if we need it (saves space for small datasets)
      if(gzip_level.gt.0.or.szip_on.or.extensible_on) &
-- 
2.43.0


From f81068f2f1392ebd208de712d625c613beae9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 39/63] fix: create_group can create more than ten nested
 groups

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 29 +++++++++++------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 3773689..7c850e3 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -731,13 +731,11 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
-    integer(hid_t)                  :: id_chain(MAX_NEST)
     integer(hid_t)                  :: group_id, loc_id
     integer, parameter              :: LEN_STR = 256
 
     character(len=LEN_STR)          :: thestring,currentgroup
-    integer          :: i,n_nest, starti, endi, hdf_err
+    integer          :: i, hdf_err
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in create_group',name=name)
@@ -763,10 +761,6 @@ contains
 
     loc_id = file_id(ifile)
 
-    starti = 1
-    endi   = i
-    
-    n_nest = 0
     do while(i > 0)
        !Get the name of the current group:
        currentgroup = thestring(1:i-1)
@@ -793,19 +787,24 @@ contains
                name=name,fname=fname_table(ifile))
        endif
        
-       n_nest = n_nest + 1
-       id_chain(n_nest) = group_id
+       ! Close its parent
+       if(loc_id.ne.file_id(ifile))then
+          call h5gclose_f(loc_id,hdf_err)
+          if(hdf_err .lt. 0) call hdf5_abort( &
+               'Unable to close group in create_group()!', &
+               name=name,fname=fname_table(ifile))
+       endif
        loc_id = group_id
     enddo
     
-    ! Close the nest of groups:
-    do i=n_nest,1,-1
-       call h5gclose_f(id_chain(i),hdf_err)
+    ! Close the innermost group
+    if(loc_id.ne.file_id(ifile))then
+       call h5gclose_f(loc_id,hdf_err)
        if(hdf_err .lt. 0) call hdf5_abort( &
-            'Unable to close group in write_data()!', &
+            'Unable to close group in create_group()!', &
             name=name,fname=fname_table(ifile))
-    enddo
-    
+    endif
+
   end subroutine hdf5_create_group
 
 !
-- 
2.43.0


From a23436befe2bf5a5e195025ac73aa05a01a96aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 40/63] fix: long names of groups and attributes aren't cut off

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90    | 12 +++++-------
 fortran/hdf5_wrapper/src/read_attribute.inc  |  5 ++---
 fortran/hdf5_wrapper/src/write_attribute.inc |  5 ++---
 3 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 7c850e3..bdccde1 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -515,7 +515,7 @@ contains
     integer(hsize_t), dimension(10) :: hdf_dims,hdf_maxdims
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)) :: loc_name,attr_name
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in get_dimensions',name=name)
@@ -609,7 +609,7 @@ contains
     integer :: hdf_err, hdf_err2
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)) :: loc_name,attr_name
     integer, intent(out) :: size
     integer(kind=size_t) :: h5size
 
@@ -732,9 +732,7 @@ contains
     character(len=*) :: name
     character, parameter            :: slash='/'
     integer(hid_t)                  :: group_id, loc_id
-    integer, parameter              :: LEN_STR = 256
-
-    character(len=LEN_STR)          :: thestring,currentgroup
+    character(len=len(name)+1)      :: thestring,currentgroup
     integer          :: i, hdf_err
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
@@ -748,7 +746,7 @@ contains
     i = index(thestring,slash)
     if (i .eq. 1) then
        !strip leading slash
-       thestring = thestring(2:LEN_STR)
+       thestring = thestring(2:)
        i = index(thestring,slash)
     endif
 
@@ -766,7 +764,7 @@ contains
        currentgroup = thestring(1:i-1)
        
        !Cut the current group from the start of the string:
-       thestring = thestring(i+1:LEN_STR)
+       thestring = thestring(i+1:)
        
        !Update position of the first /
        i = index(thestring,slash)
diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 5a69943..958895e 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -4,7 +4,6 @@ subroutine SUB_NAME (ifile,name,arr)
   ! preprocessor variables have been set - see write_attribute_preprocessor.F90.
   !
       implicit none
-      integer, parameter              :: LEN_STR = 256
       integer, parameter              :: MAX_NEST = 10
       character(len=*), intent(in)    :: name 
       integer,intent(in)              :: ifile
@@ -17,8 +16,8 @@ subroutine SUB_NAME (ifile,name,arr)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name))        :: loc_name
+      character(len=len(name))        :: attr_name
       integer                         :: nslash
       integer                         :: itype
 #ifndef SCALAR
diff --git a/fortran/hdf5_wrapper/src/write_attribute.inc b/fortran/hdf5_wrapper/src/write_attribute.inc
index 0b66709..a40968f 100644
--- a/fortran/hdf5_wrapper/src/write_attribute.inc
+++ b/fortran/hdf5_wrapper/src/write_attribute.inc
@@ -5,7 +5,6 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
   ! write_attribute_preprocessor.F90.
   !
       implicit none
-      integer, parameter              :: LEN_STR = 256
       integer, parameter              :: MAX_NEST = 10
       character(len=*), intent(in)    :: name 
       integer,intent(in)              :: ifile
@@ -18,8 +17,8 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name))        :: loc_name
+      character(len=len(name))        :: attr_name
       integer                         :: nslash
       integer                         :: itype
       logical, optional               :: overwrite
-- 
2.43.0


From 82b99424c3b29b30f00ffe13ea1949b3a0f259c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 41/63] fix: file presence checks work with Python 3

---
 .../eagle/check_eagle_file_presence.py         | 16 ++++++++--------
 .../p-gadget3/check_pgadget3_file_presence.py  | 18 +++++++++---------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..61f13dc 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..e29f945 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
-- 
2.43.0


From f13a793880b5f6618fbcde9972a29d956c4c2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 42/63] fix: Eagle file presence check reports a first file
 without a header instead of stopping

---
 consistency_check/eagle/check_eagle_file_presence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index 61f13dc..3e04f69 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -46,7 +46,7 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
         f = h5py.File(fname, "r")
         nfiles = f["Header"].attrs[nfiles_attr]
         f.close()
-    except IOError:
+    except (IOError, KeyError):
         pass
     else:
         # Get directory listing to check presence of remaining files -
-- 
2.43.0


From eac9edad39808bd4e93e363961da667aa05cf271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 43/63] fix: file presence checks don't report OK if the first
 file gives the number of files as zero

---
 consistency_check/eagle/check_eagle_file_presence.py        | 2 +-
 consistency_check/p-gadget3/check_pgadget3_file_presence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index 3e04f69..e9b0d8e 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -63,7 +63,7 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 fname = eagle_filename(basedir, dirbase, filebase, isnap, ifile)
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
-    if files_ok == nfiles:
+    if nfiles > 0 and files_ok == nfiles:
         print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index e29f945..aca0c13 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -47,7 +47,7 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 fname = pgadget3_filename(basedir, dirbase, filebase, isnap, ifile)
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
-    if files_ok == nfiles:
+    if nfiles > 0 and files_ok == nfiles:
         print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-- 
2.43.0


From ea595034b3a0d835f365f153473b039b1016a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 44/63] fix: Eagle files are found if the name of the base
 directory contains wildcard characters

---
 consistency_check/eagle/check_eagle_file_presence.py | 4 ++--
 python/virgo/sims/eagle.py                           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index e9b0d8e..ee28fc0 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -7,7 +7,7 @@ import sys
 import os
 import numpy as np
 import h5py
-from glob import glob
+from glob import glob, escape
 from collections import defaultdict
 
 def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
@@ -21,7 +21,7 @@ def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
     if key in cache:
         zstring = cache[key]
     else:
-        pattern  = "%s/%s_%03d_z???p???" % (simdir, dirbase, isnap)
+        pattern  = "%s/%s_%03d_z???p???" % (escape(simdir), dirbase, isnap)
         dirnames = glob(pattern)
         if len(dirnames) == 0:
             raise IOError("Unable to find directory %s" % pattern)
diff --git a/python/virgo/sims/eagle.py b/python/virgo/sims/eagle.py
index b3c4586..3b1bd14 100644
--- a/python/virgo/sims/eagle.py
+++ b/python/virgo/sims/eagle.py
@@ -31,7 +31,7 @@ def eagle_filename(basedir, basename, isnap, ifile, cache={}):
     else:
         # Don't know the redshift label, so need to access filesystem with glob
         pattern = ("%s/%s_%03d_z???p???/%s_%03d_z???p???.%d.hdf5" % 
-                   (basedir, dir_name, isnap, basename, isnap, ifile))
+                   (glob.escape(basedir), dir_name, isnap, basename, isnap, ifile))
         fname = glob.glob(pattern)
         if len(fname) != 1:
             raise IOError("Unable to find single file matching %s" % pattern)
-- 
2.43.0


From 6a8b04267ccbad6325f1296f0887857472a202e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 45/63] fix: make_dtrees_table reports a failure to write the
 end of the data file

---
 python/virgo/database/make_dtrees_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..8b35b30 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -145,8 +145,8 @@ def write_sql_server_native_file(tablename, data, data_file, script_file):
                 table[name+"_"+suffix][:] = data[name][:,i]
              
     # Write native data file
-    outfile = open(data_file, "w")
-    table.tofile(outfile)
+    outfile = open(data_file, "wb")
+    outfile.write(table)
     outfile.close()
    
     # Write create table script
-- 
2.43.0


From 24ada0e176e087135fc1bf756eeac55a2d308528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 46/63] fix: numpy_type uses the re module without importing it

---
 python/virgo/database/make_dtrees_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 8b35b30..7fdb7e0 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
@@ -37,7 +38,7 @@ def sql_type(dtype):
 
 def numpy_type(sqltype):
     """Given an SQL data type, return the corresponding numpy type"""
-    m = re.match("char\(([0-9]+)\)", sqltype.strip())
+    m = re.match(r"char\(([0-9]+)\)", sqltype.strip())
     if m is not None:
         # It's a string
         return np.dtype("|S"+m.group(1))
-- 
2.43.0


From f20e7f9b4c3160d5e3aae42064426cb4f99ea541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 47/63] fix: mass check of group_tab files misses negative,
 infinite and NaN masses

---
 python/virgo/formats/subfind_pgadget3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..8c88843 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -131,7 +131,7 @@ class GroupTabFile(BinaryFile):
         groupmass     = self["GroupMass"][...]
         groupmasstype = self["GroupMassType"][...]
         mass_sum = np.sum(groupmasstype, axis=1, dtype=np.float64)
-        if np.any(np.abs(mass_sum-groupmass)/groupmass > 1.0e-5):
+        if not np.allclose(groupmass, mass_sum, rtol=1.0e-5, atol=0.0):
             raise SanityCheckFailedException("GroupMass not consistent with GroupMassType!")
         
 
-- 
2.43.0


From b97c6f05709677a8d789b735dc7de5816c9198cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 48/63] fix: sanity checks of offset+length overflow and accept
 indexes far out of range

---
 python/virgo/formats/rockstar.py         | 4 ++--
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 python/virgo/formats/subfind_lgadget3.py | 6 +++---
 python/virgo/formats/subfind_pgadget3.py | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/virgo/formats/rockstar.py b/python/virgo/formats/rockstar.py
index 22f752b..e91c581 100644
--- a/python/virgo/formats/rockstar.py
+++ b/python/virgo/formats/rockstar.py
@@ -119,7 +119,7 @@ class HalosFile(BinaryFile):
         halo = self["Halo"][...]
         p_start = halo["p_start"]
         num_p = halo["num_p"]
-        if not np.all(p_start + num_p <= self["IDs"].shape[0]):
-            raise SanityCheckFailedException("Particle index too large")
         if np.any(p_start < 0):
             raise SanityCheckFailedException("Particle index is negative")
+        if not np.all(num_p <= self["IDs"].shape[0] - p_start):
+            raise SanityCheckFailedException("Particle index too large")
diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 81dfec8..648f5eb 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -202,7 +202,7 @@ class SubTabFile(BinaryFile):
         ind = nsubperhalo > 0
         if np.any(firstsubofhalo[ind]<0) or np.any(firstsubofhalo[ind]>=nsubgroups):
             raise SanityCheckFailedException("FirstSubOfHalo out of range")
-        if np.any(suboffset<0) or np.any(suboffset+sublen>nids):
+        if np.any(suboffset<0) or np.any(suboffset.astype(np.int64)+sublen>nids):
             raise SanityCheckFailedException("Subhalo particle index(es) out of range")
 
         # Check subhalo parent group index
diff --git a/python/virgo/formats/subfind_lgadget3.py b/python/virgo/formats/subfind_lgadget3.py
index 38bd9fc..e056227 100644
--- a/python/virgo/formats/subfind_lgadget3.py
+++ b/python/virgo/formats/subfind_lgadget3.py
@@ -118,7 +118,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...].astype(np.int64)+self["GroupLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -127,7 +127,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -144,7 +144,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 8c88843..21bd927 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -255,7 +255,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...].astype(np.int64)+self["GroupLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -264,7 +264,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -284,7 +284,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
-- 
2.43.0


From 3470737c6593676e0498bea77662f831aa7a4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 49/63] fix: parallel_sort of byte strings and unicode strings
 of different lengths

String scalars lose trailing null characters, so ranks contributed messages of
different sizes to the Allgather of the estimated medians and stale bytes of the
previous iteration were left in the result. The iteration might then never end.
---
 python/virgo/mpi/parallel_sort.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index a2c7dbc..1cff6a9 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -482,7 +482,9 @@ def find_splitting_points(arr, r, comm=None):
                 local_est_median = weighted_median(recv_median, recv_weight)
             else:
                 local_est_median = recv_median[0] # Not used, but need to set a value for Allgather
-            # All MPI tasks need the full array of medians
+            # All MPI tasks need the full array of medians. Note that string scalars
+            # lose any trailing null characters so we need to restore the full size.
+            local_est_median = np.asarray(local_est_median, dtype=arr.dtype)
             comm.Allgather([local_est_median, mpi_type], [est_median, mpi_type])
         
         # Find first and last elements where estimated medians can be inserted in sorted array
-- 
2.43.0


From e4c639120b5cbd2a0828ac60c6cbf3d7840a3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 50/63] fix: reading a P-Gadget3 subhalo across particle 2^31
 overflowed 32 bit integers

---
 python/virgo/formats/subfind_pgadget3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 21bd927..df15659 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -490,9 +490,9 @@ class GroupOrderedSnapshot():
             datasets = ("Coordinates", "Velocities", "ParticleIDs")
         result = {name : [] for name in datasets}
 
-        # Find range of particles we want
-        first_particle = offset
-        last_particle = offset + count - 1
+        # Find range of particles we want (avoiding overflow of 32 bit offsets)
+        first_particle = int(offset)
+        last_particle = int(offset) + int(count) - 1
 
         # Loop over snapshot files and read those we need
         first_in_snap = 0
-- 
2.43.0


From 49f6d2f420c2b27f4572c5d5f22fc85a72ea9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 51/63] fix: hash_dirs_mpi.py sets extended attributes with
 Python 3

---
 consistency_check/hash/hash_dirs_mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 50eeb61..baee2af 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -215,7 +215,7 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                 # Add extended attribute
                 if set_attrs and this_hash is not None:
                     attr = xattr(full_name)
-                    attr["user.checksum."+hash_type] = this_hash
+                    attr["user.checksum."+hash_type] = this_hash.encode("ascii")
                 if cached:
                     print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-- 
2.43.0


From c5a2793a8969d39fca112cd0be9544674dc29fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 52/63] fix: iterating over a SwiftDataset gives elements with
 units

---
 python/virgo/formats/swift.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/swift.py b/python/virgo/formats/swift.py
index 1742c5b..b58863e 100644
--- a/python/virgo/formats/swift.py
+++ b/python/virgo/formats/swift.py
@@ -284,7 +284,14 @@ class SwiftDataset(SwiftBaseWrapper):
             return swiftsimio.objects.cosmo_array(data, units=units, comoving=comoving, cosmo_factor=cosmo_factor)
         else:
             raise ValueError(f"Unrecognized mode parameter {self.mode}")
-        
+
+    def __iter__(self):
+        """
+        Iterate over the first dimension: the elements have units too.
+        """
+        for i in range(len(self)):
+            yield self[i]
+
 
 class SwiftGroup(SwiftBaseWrapper):
     """
-- 
2.43.0


From 246bb20ea33e676db98847b106afc9742a38fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 53/63] fix: parallel_sort() of arrays which contain NaN

---
 python/virgo/mpi/parallel_sort.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 1cff6a9..60c07ab 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -612,9 +612,8 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
         if arr.shape[0] > 0:
             first_ind  = np.searchsorted(arr, val, side='left')
             last_ind   = np.searchsorted(arr, val, side='right') - 1
+            # This is zero for values which are not found, including NaN
             nval_local = last_ind - first_ind + 1
-            first_ind[first_ind >= len(arr)] = len(arr) - 1
-            nval_local[arr[first_ind] != val] = 0 
         else:
             nval_local = np.zeros(len(val), dtype=index_dtype)
         nval_local = np.asarray(nval_local, dtype=index_dtype)
@@ -663,7 +662,7 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
                     # processor
                     last_to_send = arr.shape[0] - 1
                 else:
-                    if arr[val_first_index_arr[rank+1]] != val[rank+1]:
+                    if val_last_index < val_first_index:
                         # All remaining instances of this value go to later
                         # processors
                         last_to_send = val_first_index - 1
-- 
2.43.0


From 47bb6dfbad68dc76c2e8f73416c9947de529ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 54/63] fix: parallel_match() finds elements if the second
 array contains NaN

---
 python/virgo/mpi/parallel_sort.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 60c07ab..86686eb 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -831,8 +831,9 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     min_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     max_on_task = np.ndarray(comm_size, dtype=arr2.dtype)
     if arr2_ordered.shape[0] > 0:
-        min_val = np.amin(arr2_ordered)
-        max_val = np.amax(arr2_ordered)
+        # Any NaNs are at the end of the sorted array
+        min_val = np.asarray(arr2_ordered[0],  dtype=arr2_ordered.dtype)
+        max_val = np.asarray(arr2_ordered[-1], dtype=arr2_ordered.dtype)
     else:
         # If there are no values set min and max to zero
         min_val = np.asarray(0, dtype=arr2_ordered.dtype)
-- 
2.43.0


From f3b3c81e61ea3e6cc468d106baf178e24ce13bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 55/63] fix: parallel_unique() counts NaN once, as
 numpy.unique() does

---
 python/virgo/mpi/parallel_sort.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 86686eb..79d6567 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -970,14 +970,18 @@ def parallel_unique(arr, comm=None, arr_sorted=False, return_counts=False,
         all_last_unique = mycomm.allgather(local_unique[-1])
         all_last_counts = mycomm.allgather(local_count[-1])
 
+        # Check if values are the same (NaNs are, like in np.unique)
+        def same_value(a, b):
+            return a == b or (a != a and b != b)
+
         # Accumulate counts from later ranks which have instances of our last unique value
         rank_nr = mycomm_rank + 1
-        while rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:
+        while rank_nr < mycomm_size and same_value(all_first_unique[rank_nr], all_last_unique[mycomm_rank]):
             local_count[-1] += all_first_counts[rank_nr]
             rank_nr += 1
 
         # If our first unique value exists on the previous rank, zero out our count for this value
-        if mycomm_rank > 0 and all_first_unique[mycomm_rank] == all_last_unique[mycomm_rank-1]:
+        if mycomm_rank > 0 and same_value(all_first_unique[mycomm_rank], all_last_unique[mycomm_rank-1]):
             local_count[0] = 0
             
         # Discard values with zero count
-- 
2.43.0


From 1d75bd8046a1568d503a86eec9c8220873b2843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 56/63] fix: parallel_sort() refuses input which isn't an array
 instead of sorting a copy of it

---
 python/virgo/mpi/parallel_sort.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 79d6567..0f4828a 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -540,6 +540,11 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
     if comm is None:
         comm = MPI.COMM_WORLD
 
+    # Sorting is in place, so the input has to be an array already
+    if not(isinstance(arr, np.ndarray)):
+        print("Can only sort arrays!")
+        comm.Abort()
+
     # Ensure input is an array. Note that we don't use np.asanyarray here because
     # if arr is an ndarray subclass we want to access the underlying ndarray for
     # efficiency. This function doesn't return any values of the same type as the
@@ -557,9 +562,6 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
         t0 = time.time()
 
     # Sanity check input
-    if not(hasattr(arr,"dtype")) or not(hasattr(arr,"shape")):
-        print("Can only sort arrays!")
-        comm.Abort()
     if len(arr.shape) != 1:
         print("Can only sort 1D data!")
         comm.Abort()
-- 
2.43.0


From 0e0143ced664d7a1f770a205b4dd2efefd1f1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 57/63] fix: fetch_elements() stops if an index is out of range

---
 python/virgo/mpi/parallel_sort.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 0f4828a..cad5f19 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -311,6 +311,11 @@ def fetch_elements(arr, index, result=None, comm=None):
     nperproc_in = comm.allgather(n)
     ntot        = sum(nperproc_in)
 
+    # Check that the requested elements exist
+    if np.any(index < 0) or np.any(index >= ntot):
+        print("fetch_elements() - index is out of range!")
+        comm.Abort()
+
     # Get sorting index for local requested elements
     idx = my_argsort(index)
     index = index[idx]
-- 
2.43.0


From 13b93217da7dd380dedc8b4e1e4bf0e4a44d02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 58/63] fix: parallel_bincount() refuses weights which do not
 match the values

---
 python/virgo/mpi/parallel_sort.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index cad5f19..49c12ea 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1153,6 +1153,12 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
     if x.dtype.kind != "i" and x.dtype.kind != "u":
         raise ValueError("Input array x must be an integer type")
 
+    # There must be one weight for each value
+    if len(x.shape) != 1:
+        raise ValueError("Input array x must be one dimensional")
+    if weights is not None and weights.shape != x.shape:
+        raise ValueError("Input arrays x and weights must have the same shape")
+
     # Determine output array data type
     if result is not None:
         result_dtype = result.dtype
-- 
2.43.0


From dd27c434be8e83b369e950667a06ec3680d3ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 59/63] fix: MultiFile refuses format strings which give
 several files the same name

---
 python/virgo/mpi/parallel_hdf5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 514ee42..27d2eed 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -368,6 +368,8 @@ class MultiFile:
                     file_idx = None
                 file_idx = comm.bcast(file_idx)
             self.filenames = [substitute_file_nr(filenames, i) for i in file_idx]
+            if len(set(self.filenames)) != len(self.filenames):
+                raise ValueError("filenames must give each file a different name")
             self.all_file_indexes = file_idx
 
         elif isinstance(filenames, collections.abc.Sequence):
@@ -801,6 +803,10 @@ class MultiFile:
         else:
             raise ValueError("filenames must be string or sequence of strings")
 
+        # Writing several files with the same name would lose data
+        if len(set(all_filenames)) != len(all_filenames):
+            raise ValueError("filenames must give each file a different name")
+
         if self.collective:
             # Collective mode
             self._write_collective(data, elements_per_file, all_filenames, mode, group, attrs, dcpl,
-- 
2.43.0


From 631d74c2855f9b84a557dde98ecf5e2c4b9a2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 60/63] fix: MultiFile.write() refuses arrays which do not fit
 the number of elements per file

---
 python/virgo/mpi/parallel_hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 27d2eed..32e0c1b 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -721,6 +721,11 @@ class MultiFile:
         if dcpl is None:
             dcpl = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
 
+        # All elements on this rank must be written to exactly one file
+        length_tot = sum([elements_per_file[self.all_file_indexes[i]] for i in range(first, first+num)])
+        for name in data:
+            assert length_tot == data[name].shape[0]
+
         offset = 0
         for i in range(first, first+num):
             filename = all_filenames[i]
-- 
2.43.0


From 4354cc7e016dcc7149b63f8a3c1c81b4356054d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 61/63] fix: check_eagle_file_presence.py reports an output as
 missing if its directories can't be listed

---
 consistency_check/eagle/check_eagle_file_presence.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index ee28fc0..de2ce9a 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -7,7 +7,7 @@ import sys
 import os
 import numpy as np
 import h5py
-from glob import glob, escape
+from fnmatch import filter as match_names
 from collections import defaultdict
 
 def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
@@ -21,12 +21,13 @@ def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
     if key in cache:
         zstring = cache[key]
     else:
-        pattern  = "%s/%s_%03d_z???p???" % (escape(simdir), dirbase, isnap)
-        dirnames = glob(pattern)
+        # Note that glob() would ignore any failure to list the directory
+        pattern  = "%s_%03d_z???p???" % (dirbase, isnap)
+        dirnames = match_names(os.listdir(simdir), pattern)
         if len(dirnames) == 0:
-            raise IOError("Unable to find directory %s" % pattern)
+            raise IOError("Unable to find directory %s/%s" % (simdir, pattern))
         elif len(dirnames) > 1:
-            raise IOError("Found multiple directories %s" % pattern)
+            raise IOError("Found multiple directories %s/%s" % (simdir, pattern))
         else:
             dirname = dirnames[0]
         zstring = dirname[-8:]
-- 
2.43.0


From 2fe79b0aa47385e0ba1d3463499b9838b600a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 62/63] fix: parallel_bincount() doesn't sum small integer or
 boolean weights in their own type

---
 python/virgo/mpi/parallel_sort.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 49c12ea..fd29a19 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1164,9 +1164,16 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
         result_dtype = result.dtype
     elif weights is not None:
         result_dtype = weights.dtype
+        if result_dtype.kind in "biu" and result_dtype.itemsize < 8:
+            # The sum of many small integers might not be a small integer
+            result_dtype = np.dtype(index_dtype)
     else:
         result_dtype = index_dtype
 
+    # Do the sums with at least the precision of the output
+    if weights is not None:
+        weights = weights.astype(np.promote_types(weights.dtype, result_dtype), copy=False)
+
     # Find the maximum value in x
     x_max = int(np.amax(x)) if len(x) > 0 else -1
     x_max = comm.allreduce(x_max, op=MPI.MAX)
-- 
2.43.0


From df74fac95564cbcc8d5ccd5e2d1fa4a1b1995789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 63/63] fix: gather_array() refuses arrays which can't be put
 together

---
 python/virgo/mpi/gather_array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/virgo/mpi/gather_array.py b/python/virgo/mpi/gather_array.py
index 7fc850e..54b6ab5 100644
--- a/python/virgo/mpi/gather_array.py
+++ b/python/virgo/mpi/gather_array.py
@@ -41,6 +41,14 @@ def gather_array(data, root=0, comm=None, axis=0):
     # Ensure array is contiguous
     data = np.ascontiguousarray(data)
 
+    # Any arrays which aren't empty, and those which determine the type of
+    # the result, must agree on the type and the other dimensions
+    is_used = data.shape[0] > 0 or root is None or comm_rank == root
+    all_types = comm.allgather((data.dtype, data.shape[1:]) if is_used else None)
+    all_types = [t for t in all_types if t is not None]
+    if any(t != all_types[0] for t in all_types):
+        raise ValueError("Arrays to gather must have the same type and dimensions on all ranks")
+
     # Find total number of elements
     ntot = comm.allreduce(data.shape[0])
 
-- 
2.43.0

