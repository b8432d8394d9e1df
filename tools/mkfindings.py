import json, subprocess
P = {"871aec3":"C05","8f25f9c":"C04","3b0eca7":"C02","68756de":"C06","32ff3b8":"C08","de236f4":"C09","1e43540":"C09","3857cb5":"C09","1bd26c0":"C10",
"f6990a3":"C16","f5b52a2":"C16","0d50738":"C16","e585e5e":"C16","60dda34":"C16","adec2ae":"C16","5a190c2":"C16","df33443":"C16",
"f47aa49":"C17","47a8a71":"C17","ad2e911":"C17","3087579":"C17","5161f18":"C17","78b2468":"C18","3547425":"C18","0be9a6d":"C18",
"7d16bb9":"C20","0785dde":"C20","f40cf0c":"C20","11d3e11":"C20","30c7576":"C20","25a5bc9":"C20","de4aec3":"C20","e962873":"C20","f81068f":"C20","a23436b":"C20","6da4149":"C19","600c52f":"C19","1f3dcd3":"C19","cd6e86e":"C19","f20e7f9":"C29","b97c6f0":"C29","49f6d2f":"C19","c5a2793":"C28","df74fac":"C15","2fe79b0":"C04","0e0143c":"C05","13b9321":"C04","dd27c43":"C10","631d74c":"C11","4354cc7":"C26","246bb20":"C01","1d75bd8":"C01","47bb6df":"C02","f3b3c81":"C03","e4c6391":"C18","3470737":"C01","82b9942":"C26","f13a793":"C26","eac9eda":"C26","ea59503":"C26","6a8b042":"C27","24ada0e":"C27"}
W = {
"e4c6391":"reading a subhalo (or a range given by 32 bit integers) of a P-Gadget3 snapshot which reaches past particle 2^31 failed: offset + length overflowed",
"3470737":"parallel_sort of distributed arrays of strings of different lengths could loop for ever (ranks contributed messages of different sizes to a collective call); also breaks C03, C07",
"82b9942":"the file presence checks could not run at all with Python 3",
"f13a793":"the Eagle file presence check stopped with an error, without checking the rest, at a first file without a header",
"eac9eda":"an output whose first file is zeroed (or gives zero files) was reported as OK - 0 of 0 files present",
"ea59503":"the Eagle file presence check reported everything as missing if the base directory's name contains wildcard characters (eagle_filename of virgo.sims.eagle failed likewise)",
"6a8b042":"make_dtrees_table ended normally although the end of the data file could not be written (full disk)",
"24ada0e":"numpy_type could not be called (re not imported)",
"871aec3":"repartition, fetch_elements and reduce_elements returned uninitialised memory for Fortran ordered or strided arrays (received into a temporary copy); also breaks C04",
"8f25f9c":"parallel_bincount of a globally empty array had one bin, and uint64 values made it fail",
"3b0eca7":"parallel_match of int64 with uint64 values matched unequal values above 2^53 or missed equal ones",
"68756de":"sendrecv could not exchange arrays of structured types",
"32ff3b8":"mpi_errchk did not abort the job if reporting the error failed (other ranks wait for ever)",
"de236f4":"collective_read/collective_write looped for ever or divided by zero with a buffer smaller than a row or rows of no bytes",
"1e43540":"collective_read hangs on compound, boolean or string data if a rank has nothing left to read",
"3857cb5":"collective_write raised on some ranks only (others hang) if shapes or types differ",
"1bd26c0":"MultiFile.read raised on some ranks only (others hang) if files disagree on the type",
"f6990a3":"record types were not byte swapped",
"f5b52a2":"toggle_byteswap had no effect on blocks which were already defined",
"0d50738":"write_hdf5 lost the attributes of the file itself",
"e585e5e":"attributes of datasets in files of the other byte order were misread",
"60dda34":"the default mode of write_binary was invalid, so it always failed",
"adec2ae":"write_hdf5 failed on datasets with no elements",
"5a190c2":"closing a BinaryFile left blocks read by read_and_skip open",
"df33443":"a BinaryFile with a relative path read another file after the working directory changed",
"f47aa49":"gadget snapshot reader failed on sequences of extra datasets",
"47a8a71":"L-Gadget2 group_ids files could not be opened",
"ad2e911":"L-Gadget2 snapshot sanity check failed on every file (fractional number of hash bits)",
"3087579":"Velociraptor reader failed with current numpy",
"5161f18":"MXXL sub_tab files could not be opened",
"78b2468":"L-Gadget2 read_region failed (fractional cell indexes)",
"3547425":"Gadget-4 read_fof_group lost a particle if the group's last particle starts a file",
"0be9a6d":"Gadget-4 GroupOrderedSnapshot could not be opened if there are no groups or subgroups",
"7d16bb9":"the Fortran wrapper's write_data made datasets extensible if extensible=.false. was given",
"0785dde":"open_file/create_file of the Fortran wrapper used an undefined error status after hdf5_auto_open(.false.), and could abort although nothing failed",
"f40cf0c":"list_attributes of the Fortran wrapper always aborted with HDF5 1.10 if names were asked for",
"11d3e11":"7D integer datasets were written with dimensions of a 2D array (all other elements lost)",
"30c7576":"the Fortran wrapper ignored errors closing a dataset: a full disk at that point left a file without the data, and the program ended normally",
"25a5bc9":"read_data returned the old contents of a dataset which had been read, then overwritten",
"de4aec3":"read_data read past the end of the array (or aborted) for selections with no elements",
"e962873":"extensible or compressed datasets of the Fortran wrapper with a dimension of size zero could not be created",
"f81068f":"create_group wrote past the end of an array with more than ten nested groups",
"a23436b":"group and attribute names longer than 200 or 256 characters were cut off",
"6da4149":"hash_dirs_mpi.py did not run with Python 3",
"600c52f":"hash_dirs_mpi.py silently left out directories which can't be read",
"1f3dcd3":"hash_dirs_mpi.py hashed the database it is writing",
"cd6e86e":"hash_dirs_mpi.py hung if standard output failed while an unreadable directory was reported",
"f20e7f9":"GroupTabFile.sanity_check of P-Gadget3 accepted group masses which are negative, infinite or not a number",
"49f6d2f":"hash_dirs_mpi.py --attrs stopped with a TypeError with Python 3, as extended attributes are bytes (shown against a stand-in for the xattr module, which is not installed here)",
 "1d75bd8":"parallel_sort of a list or other sequence returned without an error, leaving it unsorted (the test meant to refuse it came after the conversion)",
 "246bb20":"parallel_sort of an array with NaN sent elements to the wrong rank: a ValueError on some rank (others went on waiting), or elements overwritten by copies of one",
 "47bb6df":"parallel_match reported elements as not found if the second array had a NaN on the same rank",
 "f3b3c81":"parallel_unique returned NaN several times if more than one rank had some",
 "0e0143c":"fetch_elements() with an index outside the array (such as the -1 which parallel_match gives for no match) returned other elements or garbage",
 "13b9321":"parallel_bincount() with more weights than values dropped the rest, and counted two dimensional input wrongly, without an error",
 "dd27c43":"MultiFile with a format string which gives several files the same name read the rows of one file several times, and wrote several files over each other",
 "631d74c":"MultiFile.write() lost the rows beyond the number of elements per file, or repeated a single row, without an error",
 "4354cc7":"check_eagle_file_presence.py took an output with two directories as OK if a failure while listing hid one of them",
 "2fe79b0":"parallel_bincount() with boolean or small integer weights gave sums which had wrapped around (True for any number of True)",
 "df74fac":"gather_array() of arrays with different types or dimensions gave the bytes of one type as values of another, without an error",
 "c5a2793":"iterating over a data set of a SWIFT or SOAP file gave bare numbers without the units which indexing gives",
"b97c6f0":"sanity_check of the subfind and Rockstar readers accepted offsets, first subgroups and particle indexes near the largest integer, as offset+length overflowed",
}
out=[]
for c in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h"],capture_output=True,text=True).stdout.split():
    if c[:7] in P:
        full=subprocess.run(["git","-C","/repo","rev-parse",c],capture_output=True,text=True).stdout.strip()
        out.append(dict(property=P[c[:7]],status="fixed",commit=full,what=W[c[:7]],line="fixed: property=%s %s %s"%(P[c[:7]],c,W[c[:7]])))
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
print(len(out))
