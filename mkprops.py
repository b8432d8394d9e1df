import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=list(observe)
    d["anchors"]["hook_needed"]=hook
    P.append(d)
PS="python/virgo/mpi/parallel_sort.py"; PH="python/virgo/mpi/parallel_hdf5.py"; U="python/virgo/mpi/util.py"
TESTS="The existing tests run real Open MPI on one host with seeded random arrays at 1, 2, 3, 4 and 8 ranks: one progress engine, whatever schedule it happens to take, no faults; "
p("C01","Distributed sort is an exact sort",
 "After a distributed sort returns on every rank, the concatenation over ranks of the arrays is the ascending sort of the concatenation of the inputs (same multiset of values), and each rank still holds exactly as many elements as it passed in. If a sorting index was requested, it is a permutation of the global element indexes, distributed like the array, and applying it to the original distributed array gives the sorted array. This holds for any number of ranks, any partition including ranks with no elements, any duplicates, any values (NaN last, as numpy sorts them), any sub-communicator and every message timing. An array which can't be sorted, of a foreign byte order, with more than one dimension or not a numpy array, ends the job: the call never returns with it unsorted.",
 ["inputs","schedules","configurations"],"all rank counts, partitions, value distributions and dtypes (integers, floats, record types), communicators, and message schedules the MPI standard allows",
 TESTS+"they do not control when messages are delivered, when buffers are read, or how large one message may be, and sample few skewed partitions.",
 [PS],[("find_splitting_points","iterative weighted median search for exact splitting ranks"),("parallel_sort","instance counting for duplicated splitting values, exchange, final local sort")],
 observe=["return value and in-place array on each rank"])
p("C02","Distributed match finds an equal element or reports none",
 "For every element of the first distributed array the distributed match returns a global index of an element of the second distributed array that has the same value, or -1 exactly when no element of the second array has that value (NaN equals nothing, and does not hide other elements). The result is laid out like the first array and is the same contract whether the second array is unsorted or declared already globally sorted. Inputs are not modified.",
 ["inputs","schedules","configurations"],"all rank counts, partitions (empty ranks, one or both arrays globally empty), values (negative, huge, duplicated, wholly disjoint) and message schedules",
 TESTS+"only a handful of value ranges and densities are sampled.",
 [PS],[("parallel_match","range of values per rank, routing to the lowest rank holding a value, reverse exchange")],
 observe=["returned index on each rank"])
p("C03","Distributed unique values and counts are exact",
 "The concatenation over ranks of the values returned by the distributed unique operation is the ascending list of distinct values of the whole distributed input, each exactly once (NaN as one value), and the counts (if requested) are the exact number of occurrences of each, over all ranks. When balanced output is requested, the numbers of values on any two ranks differ by at most one. This holds whether the input is unsorted or declared already globally sorted, and the input is not modified.",
 ["inputs","schedules","configurations"],"all rank counts, partitions with empty ranks, values whose run of duplicates spans several ranks, and message schedules",
 TESTS+"runs of one value covering three or more ranks between empty ranks are rarely sampled.",
 [PS],[("parallel_unique","boundary values and counts gathered from every rank, first/last ownership rule"),("repartition","balanced output")],
 observe=["returned arrays on each rank"])
p("C04","Distributed reduction applies every update exactly once",
 "A distributed reduction of updates into a distributed array leaves every element equal to its initial value combined with all updates addressed to its global index by any rank, each applied exactly once and to no other element, for numpy ufuncs and for MPI reduction operators, and for scalar or multi-dimensional elements. A distributed bincount equals the serial bincount of the concatenated input (weighted or not, honouring a minimum length or a supplied result array), so total weight is conserved; a result array without room for all values, or updates, weights and indexes which do not fit together, stop the job instead of losing some. The updates, indexes and weights passed in are not modified.",
 ["inputs","schedules","configurations"],"all rank counts, partitions (empty ranks, no updates), repeated indexes from several ranks, operators, shapes and message schedules",
 TESTS+"updates from many ranks to one index, trailing empty ranks and every operator/shape combination cannot be enumerated there.",
 [PS],[("reduce_elements","sort by destination, count/exchange, apply locally"),("parallel_bincount","local pre-accumulation then reduce_elements")],
 observe=["the distributed result array"])
p("C05","Repartition and fetch preserve every element and order",
 "Repartitioning a distributed array to a requested number of elements per rank preserves the global sequence of elements exactly and gives each rank the requested number; a request whose total differs from the number of elements aborts the job instead of returning. Fetching by global index returns, on each rank and in the order asked for, exactly the addressed elements, including repeated indexes, into a new array or into the caller's result array; an index outside the array, such as the -1 of an unmatched element, stops the job. Both work for multi-dimensional arrays and ndarray subclasses and leave their inputs unmodified.",
 ["inputs","schedules","configurations"],"all rank counts, source and target partitions including empty ranks, index multisets, element shapes and dtypes, and message schedules",
 TESTS+"they sample a few shapes.",
 [PS],[("repartition","intersection of source and destination ranges"),("fetch_elements","index sort, request exchange, reply exchange, order restoration")],
 observe=["returned arrays / supplied result array"])
p("C06","All-to-all and pairwise exchange deliver each element exactly once",
 "The all-to-all exchange places each block a rank addresses to another rank at the receive offset that rank named for it, element by element, exactly once, writes nothing outside the receive ranges and does not modify the send buffer; the two available transfer methods give identical results. The pairwise exchange delivers the partner's whole array in order, even when the two sides send different amounts. This holds when transfers are split into several messages and whatever the order and timing of message delivery.",
 ["schedules","inputs","configurations"],"all count/offset layouts (gaps, overlapping send ranges, zero counts, self sends), both methods, any maximum message size, any legal delivery order, eager or rendezvous sends, late reads of send buffers and late writes of receive buffers",
 "The 100 MB message limit is never reached in the tests, so the splitting loops never iterate there, and one MPI library on one host never delays or defers messages on purpose.",
 [PS],[("my_alltoallv","pairwise hypercube Sendrecv loop, or posted Irecv/Isend and one Waitall"),("sendrecv","size handshake, then chunked Sendrecv")],
 observe=["receive buffer, canary elements around it, send buffer"],
 hook="maximum message size in my_alltoallv is a hard-coded 100 MB; VIRGODC_SIM_MAX_MESSAGE_BYTES lowers it")
p("C07","Collective operations always finish and leave MPI as they found it",
 "Any sequence of the distributed operations, called in the same order by all ranks of a communicator, while other disjoint communicators of the job run different sequences, finishes on every rank with the same results as when run alone: no deadlock, no mismatched collective call, no truncated or left-over message and no non-terminating iteration. This includes ranks without any data, communicators of one rank and arrays of identical values. Repeating the same operations, or reads and writes of sets of files, does not make the number of live communicators, datatypes or requests grow.",
 ["schedules","histories","configurations"],"all sequences of operations, groupings of ranks into communicators, relative speeds of ranks, and synchronising or non-synchronising collectives, eager or rendezvous sends",
 TESTS+"a deadlock that needs rendezvous sends, a slow rank or a particular grouping does not show there, and nothing counts MPI handles.",
 [PS,"python/virgo/mpi/gather_array.py",U,"python/virgo/mpi/merger_tree.py"],[("Split/Free of communicators","parallel_sort, parallel_unique"),("mpi_datatype/Free","my_alltoallv, gather_to_2d_array, find_splitting_points"),("Sendrecv pairing","my_alltoallv hypercube order")],
 observe=["scheduler quiescence, collective matching, live handle census"])
p("C08","A failing rank takes the whole MPI job down, a healthy job is left alone",
 "If a function wrapped by the MPI error check raises an exception or is interrupted on any rank at any point, the error is reported and the whole job is aborted with a non-zero code, whatever the other ranks are blocked in; if nothing fails its return value and arguments pass through unchanged and no abort happens. The MPI argument parser gives every rank the same arguments, those of rank 0; if rank 0's arguments are invalid every rank exits, none hangs, and the message is written to standard error by rank 0 only.",
 ["crash_points","schedules","fault_sequences"],"all ranks, all points (before, between and inside MPI operations) of failure, exception kinds, several failing ranks, and schedules; all argument lists on rank 0 and others",
 "No test raises inside a running parallel function: a real abort would end the test job.",
 ["python/virgo/mpi/errchk.py",U],[("mpi_errchk","except (Exception, KeyboardInterrupt) then Abort(1)"),("MPIArgumentParser.parse_args","bcast of the result or None, then Finalize and exit on all ranks")],
 observe=["Abort calls, return values, stderr per rank, exit of every rank"])
p("C09","Collective HDF5 read and write move every element to its place",
 "A collective write creates (or fills) a dataset, compressed as asked for where HDF5 can do it, that is exactly the concatenation in rank order of the ranks' arrays, and a collective read gives the ranks consecutive near-equal slices whose concatenation in rank order is exactly the dataset, with its type and trailing dimensions. This holds for any number of rows per rank including none, any trailing shape and element type, and any buffer size, even one smaller than a row. Inconsistent shapes or types between ranks raise an error instead of writing data.",
 ["inputs","configurations","schedules"],"all row counts per rank, shapes, dtypes, buffer sizes, rank counts and schedules",
 TESTS+"buffer sizes near or below one row, ranks with different numbers of iterations and empty datasets are not covered.",
 [PH],[("collective_read","equal split, small datasets read on rank 0 and broadcast, chunked reads with a global iteration count"),("collective_write","offsets from allgather, low-level writes so empty ranks still take part")],
 observe=["arrays returned; file content re-read independently"])
p("C10","Multi-file read returns every row once, in file order",
 "Reading a dataset from a set of N files on M ranks gives arrays whose concatenation in rank order is exactly the concatenation in file order of that dataset over the files that contain it, for any N and M; a file without the dataset or group contributes nothing, ranks without rows get an empty array of the right type and trailing shape, and None is returned everywhere only if no file has it. The file numbers and attributes returned alongside describe the rows they accompany. Files that disagree on the element type raise an error on every rank, and so does a name pattern which would give several files the same name.",
 ["inputs","configurations","schedules"],"all N, M, per-file row counts including zero and absent datasets or groups, name formats, dtypes and byte orders, and schedules",
 TESTS+"absent datasets, byte orders, and N/M combinations are sampled at five rank counts only.",
 [PH,U],[("MultiFile","assignment of files to ranks or of ranks to files"),("replace_none_with_zero_size","agreement on type and shape"),("dtype consistency checks","allreduce and gather/bcast so that all ranks raise")],
 observe=["arrays, file numbers and attributes returned on each rank"])
p("C11","Multi-file write reproduces the layout and loses nothing",
 "The per-file element counts reported for a dataset add up, over ranks, to the number of rows that dataset has in each file, and describe exactly the rows the same rank gets by reading it. Writing distributed arrays with those counts, to new files or into existing ones, produces files which hold the same rows as the originals, file by file and in order, with the requested attributes, compression and creation properties, leaves other content of existing files alone, and reading them back on any other number of ranks returns the same global array. Arrays whose length differs from the number of elements per file, and output names which would be the same for several files, are refused with an error.",
 ["inputs","configurations","histories","schedules"],"all N, M, counts, output name styles, new and existing files, groups, attributes and schedules; write on M ranks, read back on any other number",
 TESTS+"write is tested through a few fixed layouts with the same number of ranks for reading and writing.",
 [PH],[("get_elements_per_file","same split as the read"),("write","independent or collective, same assignment of files"),("compress_dcpl","creation properties")],
 observe=["files re-read independently"])
p("C12","An I/O failure in a multi-file operation never passes silently",
 "If opening, reading, writing or creating any file of a set fails on any rank while a multi-file read, write or layout query runs, then at least one rank raises an error or the job ends; it never happens that all ranks return normally with rows missing, duplicated, stale or altered. A job in which no operation failed returns exact data on all ranks. Retrying the whole operation on fresh handles after the failure cleared gives the exact result.",
 ["fault_sequences","crash_points","schedules"],"all placements and kinds of I/O failure (open, read, write, create, attribute access; missing, unreadable, truncated file) over ranks and files, and schedules",
 "The tests never make an I/O operation fail.",
 [PH],[("errors propagate from h5py","no handler swallows them in MultiFile"),("absence tests","only a missing group or dataset, not a failing one, counts as absent")],
 observe=["per-rank outcome, data, files"])
p("C13","Group membership of each particle is computed exactly",
 "Given distributed group lengths and offsets into a distributed particle list, every particle gets the global index of the group whose range contains it, or -1 if there is none, and (if requested) its rank within that group counted from the group's first particle, or -1. This holds for groups spanning any number of ranks, groups and particles partitioned independently of each other, ranks with no groups or no particles, empty groups and unused particles between groups, and for signed or unsigned input types.",
 ["inputs","schedules","configurations"],"all group tables with non-decreasing offsets and non-overlapping ranges, partitions of groups and particles, and schedules",
 TESTS+"they use a single generator of group layouts.",
 [U],[("group_index_from_length_and_offset","two-pointer search for destination ranks, three exchanges, clipping to the local range")],
 observe=["returned arrays"])
p("C14","Halo matching picks the right descendant and consistency is mutual",
 "For each halo of catalogue 1 the match is the catalogue 2 halo that received the largest number of its particles (particles in no halo at either time do not count), the lowest-numbered one in a tie, and -1 if none did; the result has the requested number of halos per rank. The consistency flag of a halo is 1 exactly when its match exists and that halo's match in the other direction is this halo. Neither depends on how particles and halos are distributed over ranks.",
 ["inputs","schedules","configurations"],"all memberships, ID sets, ties, partitions (more ranks than halos, empty ranks, no particles in common) and schedules",
 "There are no tests of these functions.",
 ["python/virgo/mpi/merger_tree.py",PS],[("match_halos","parallel_match, fetch_elements, parallel_unique on pairs, routing to the halo's rank, tie rule"),("consistent_match","global index of own halos, fetch of back-pointer")],
 observe=["returned arrays"])
p("C15","Gathering arrays and agreeing on shape lose nothing",
 "Gathering a distributed array to a root rank, or to all ranks, along any axis gives exactly the concatenation in rank order of the local arrays along that axis, on exactly the ranks that should have it (None elsewhere), for ranks contributing nothing and any root, or raises an error for an element type it can't send, or if the arrays which are not empty disagree on the type or the other dimensions. Filling in arrays that are absent on some ranks returns a present array itself, an empty array of the type and trailing shape used elsewhere where it is absent, and None everywhere if it is absent everywhere.",
 ["inputs","configurations","schedules"],"all rank counts, roots, axes, shapes, dtypes, patterns of absent or empty contributions, and schedules",
 TESTS+"gathering along other axes, to other roots and with empty ranks is not covered.",
 ["python/virgo/mpi/gather_array.py",U],[("gather_array","axis swap, counts and displacements, Gatherv/Allgatherv"),("broadcast_dtype_and_dims","allgather of dtype and shape")],
 observe=["returned arrays"])
p("C16","Binary file access stays exact under any history and descriptor limit",
 "Whatever sequence of opening, slicing, closing, discarding and reopening of any number of binary files a program performs, each read returns exactly the bytes of that file's block, interpreted with the declared type, shape and byte order, and results already returned never change afterwards. At no time are more files held open than the documented limit, and closing one file does not break any other (and releases it); a failed open or read raises an error and does not affect later accesses. Copies written to a new binary or HDF5 file, and hashes, agree with the declared content.",
 ["histories","fault_sequences"],"all operation histories over more files than the limit, with open and map failures (EMFILE, EIO, ENOENT) at any point, short of replacing a file's content while it is open",
 "There are no tests of this module.",
 ["python/virgo/util/read_binary.py"],[("BinaryDataset.file_cache","weak references to open maps, oldest closed first at max_files"),("copy on read","slices are copied out of the map"),("all_blocks","byte order switched for every block")],
 state=[("file_cache","currently open maps","BinaryDataset")],
 observe=["values returned, number of open maps"])
p("C17","Damaged binary files are rejected, never misread",
 "Opening or reading a snapshot or group catalogue file in one of the supported binary formats returns exactly the values written, for both byte orders and for any particle or group counts; if the file is truncated at any byte, or a record marker is damaged, then everything that needs the missing or damaged part raises an error, and what can still be read is exact. No read ever returns bytes from outside the block it asked for.",
 ["inputs","fault_sequences","crash_points"],"all truncation points (a crash or full disk while the file was written), damaged record markers, byte orders, precisions and counts",
 "There are no tests of the format readers.",
 ["python/virgo/util/read_binary.py","python/virgo/formats/gadget_snapshot.py","python/virgo/formats/subfind_gadget4.py","python/virgo/formats/subfind_pgadget3.py","python/virgo/formats/subfind_lgadget3.py","python/virgo/formats/subfind_lgadget2.py"],
 [("range check against file size","BinaryDataset.__getitem__"),("record markers compared","end_fortran_record, GadgetBinarySnapshotFile"),("byte order detection","header record length / number of files")],
 observe=["values returned or error raised"])
p("C18","Reading part of a snapshot gives the same rows in any order of calls",
 "Reading the particles of a group, subhalo or particle range (at least one) from a snapshot split over any number of files returns exactly the rows that belong to it, in order and for every particle type, wherever file boundaries fall and whether files lack particles. The result does not depend on which other groups or ranges were read before, and a read that fails because a file is temporarily unreadable raises an error and has no effect on later reads. Reading a whole group catalogue or a list of files gives every row once in file order.",
 ["histories","inputs","fault_sequences"],"all file splits (including files with no particles, groups ending exactly at a file boundary), call orders, and I/O failures during any call",
 "There are no tests of these readers.",
 ["python/virgo/formats/subfind_gadget4.py","python/virgo/formats/subfind_pgadget3.py","python/virgo/formats/subfind_lgadget2.py","python/virgo/util/read_multi.py"],
 [("npart_file cache","particle counts read lazily per file"),("early exit","loop over files ends once the range is complete"),("read_multi","concatenation over files")],
 state=[("npart_file","lazily filled particle counts","GroupOrderedSnapshot")],
 observe=["arrays returned"])
p("C19","Directory hashing covers every file once and survives interruption",
 "The parallel directory hasher reports for every selected file under the base directory exactly one hash, equal to the hash of its content (or UNREADABLE if it cannot be read), sets the attribute it was asked to set on every such file, and its outputs do not depend on the number of ranks or on which rank processed which directory; all ranks finish. If a run that records to a database is killed at any point, the database holds only correct hashes, and a resumed run (which reads recorded hashes instead of recomputing them) finishes with the same output as an uninterrupted run, with no file recorded twice. (A resume may be refused with an error if nothing has been recorded yet, and a directory which cannot be listed is itself reported as UNREADABLE.) Any other I/O failure ends the job with an error rather than with incomplete output.",
 ["schedules","crash_points","fault_sequences","histories"],"all directory trees, rank counts, work distributions, read failures, and kill points with resume, including repeated kills",
 "There are no tests of this program.",
 ["consistency_check/hash/hash_dirs_mpi.py"],[("request_task/process_requests","master hands out directories and collects results"),("store_hashes","insert and commit per directory"),("cache","hashes read back when resuming")],
 state=[("hashes table","recorded results","sqlite database")],
 observe=["output file, per-directory files, database rows, termination of all ranks"])
p("C20","HDF5 wrapper writes are durable and exact or fail loudly",
 "Any sequence of opening files, creating, extending and partially overwriting or reading datasets and attributes through the Fortran/C HDF5 wrapper behaves like an array store: what is read is what was last written there, across handles and after closing and reopening, for every type and rank offered. If an underlying I/O call fails (disk full, I/O error, short write) during the sequence, the program stops with an error message or the call reports failure; it never continues to a normal end with a file that lacks data it claimed to write.",
 ["histories","fault_sequences","inputs"],"all operation sequences over several files and handles, start/count selections, extensible datasets, and I/O failures at any call",
 "The two Fortran tests write one fixed file each and inject no failure.",
 ["fortran/hdf5_wrapper/src/hdf5_wrapper.F90","fortran/hdf5_wrapper/src/write_dataset_c.c","fortran/hdf5_wrapper/src/read_dataset_c.c"],
 [("file handle table","maps handles to HDF5 ids"),("open dataset cache","reuses the last dataset handle"),("error checks","hdf_error / abort on failure")],
 observe=["data read back, exit status and messages of the driver"])
p("C21","Serial matching finds an equal element for every value",
 "For each element of one array the serial match returns the position of an equal element of the other, or -1 if there is none, with or without a precomputed sort order.",
 ["inputs"],"all arrays","No tests exist.",["python/virgo/util/match.py"],[("match","argsort and searchsorted")])
p("C22","Peano-Hilbert keys are a bijection consistent between directions",
 "Peano-Hilbert keys map grid cells one-to-one onto the key range for every number of bits, neighbouring keys are neighbouring cells, and the inverse returns the cell the key was made from.",
 ["inputs"],"all cells and bit depths","No tests exist.",["python/virgo/util/peano.py"],[("lookup tables","rotation and sub-cell tables")])
p("C23","Merger tree indexing gives contiguous depth-first branches",
 "Depth-first indexes computed for a merger forest are a permutation in which every subtree occupies a contiguous range starting at its root and main progenitors come first.",
 ["inputs"],"all forests","No tests exist.",["python/virgo/database/index_trees.py"],[("depth-first traversal","index_trees.py")])
p("C24","Range helpers neither lose nor duplicate elements",
 "Assigning elements to ranges, summing over ranges and converting between ranges and indexes agree with the element-by-element definition.",
 ["inputs"],"all ranges","No tests exist.",["python/virgo/util/ranges.py"],[("cumulative sums","ranges.py")])
p("C25","Partial formatting of file names is faithful",
 "Partial formatting of file name patterns fills in exactly the given fields and leaves the others for later.",
 ["inputs"],"all format strings","No tests exist.",["python/virgo/util/partial_formatter.py"],[("PartialFormatter","partial_formatter.py")])
p("C26","File presence checks call an output complete only if all its files are there",
 "The programs which check an Eagle or P-Gadget3 run for missing files say exactly once for every expected output whether it is complete, and a summary which agrees. An output is reported OK only if every one of the files its first file says it has is in its directory; if any is missing, or the first file is missing, damaged, has no header or cannot be read, or the directory cannot be listed or there are two which could be it, it is reported as MISSING with the right counts, and the other outputs are checked all the same. An output which is complete and readable is reported OK whatever other files lie in or beside its directory. While files arrive (or leave), OK means complete at the end (at the start) of the run.",
 ["inputs","fault_sequences","schedules"],"all runs with any files missing or damaged, I/O failures at any call, and files moved in or out at any moment of the check",
 "There are no tests of these programs.",
 ["consistency_check/eagle/check_eagle_file_presence.py","consistency_check/p-gadget3/check_pgadget3_file_presence.py","python/virgo/formats/gadget_snapshot.py","python/virgo/formats/subfind_pgadget3.py"],
 [("check_dir","number of files from the first file, compared with a directory listing"),("eagle_filename","redshift label found with glob and cached"),("count_missing/count_expected","summary")],
 observe=["report printed, normal or abnormal end"])
p("C27","Merger tree tables hold every subhalo once or the run fails",
 "If make_dtrees_table ends normally, the data file holds exactly one row per subhalo of all input files in their order, each column equal to the input and of the type which the script gives for it, and the branch masses and depth-first indexes of every tree are right: the tree of a subhalo is the contiguous range from its own index to that of its last progenitor, progenitors come in the order of decreasing branch mass, and the main branch ends where stated. If an input file or dataset is missing, damaged or unreadable, or an output cannot be opened or written to its end (full disk, quota, I/O error), it raises an error; repeating it when the cause is gone gives the complete table whatever the failed run left behind.",
 ["inputs","fault_sequences","histories"],"all merger forests split over any number of files, and I/O failures at any call, including a disk which is full after any number of bytes",
 "There are no tests of this module.",
 ["python/virgo/database/make_dtrees_table.py","python/virgo/database/index_trees.py"],
 [("read_dhalo_trees","concatenation over files"),("write_sql_server_native_file","table and create table script"),("depth_first_index","indexes of the trees")],
 observe=["data file, script, exceptions"])
p("C28","Data of SWIFT and SOAP files has the units stored with it",
 "Reading any part of a dataset of a SWIFT or SOAP file, by index or by iterating over it, returns exactly the stored numbers, with units of the dimensions stored with the dataset whose CGS value is the conversion factor stored with the dataset (with the cosmological corrections and powers of a and h in soap mode; comoving or physical, with the scale factor, in swiftsimio mode); units of the file asked for by name have the values in the file. This does not depend on which other files with other systems of units are, were or will be open, on results kept from earlier reads, or on what a file of the same name held before. Data whose units swiftsimio mode cannot express is refused. If the file or its metadata cannot be read at some moment an error is raised, and later reads are not affected.",
 ["inputs","fault_sequences","histories"],"all histories of opens, reads and closes of any number of files with any systems of units, and I/O failures at any open or read",
 "There are no tests of these modules.",
 ["python/virgo/formats/swift.py","python/virgo/formats/soap.py"],
 [("soap_unit_registry_from_snapshot","unit registry of each file"),("soap_units_from_attributes","exponents and conversion factor"),("swiftsimio_units_from_attributes","comoving flag"),("SwiftGroup.__getitem__","metadata handed on to groups and datasets")],
 observe=["values and units returned or error raised"])
p("C29","Sanity checks notice contradictory catalogues and wrong options",
 "Calling sanity_check() on a binary group catalogue, ID list, snapshot or halo file which offers it returns normally if the contents are consistent, whatever the numbers of groups, subgroups and particles and both byte orders, and raises an error if lengths, offsets, pointers or indexes in it are out of range or contradict each other, IDs are duplicate or impossible, positions lie outside their hash cell, masses do not add up, quantities which have to be finite (or not negative) are not, or if the options given when it was opened (ID size, precision, optional fields) describe a file of another size. It changes neither the file nor what is read from it before or after, and a failure to read the file raises an error and does not pass for a result.",
 ["inputs","fault_sequences"],"all catalogues and all single values overwritten in them, wrong options, I/O failures at any open or map",
 "There are no tests of sanity_check on damaged contents.",
 ["python/virgo/formats/subfind_pgadget3.py","python/virgo/formats/subfind_lgadget3.py","python/virgo/formats/subfind_lgadget2.py","python/virgo/formats/rockstar.py","python/virgo/util/read_binary.py"],
 [("sanity_check","checks of each format"),("BinaryFile.all_bytes_used","size of the file compared with what the options describe")],
 observe=["error raised or not"])
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
