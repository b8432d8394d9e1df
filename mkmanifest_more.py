H5 = ("Trusts the simulated MPI and the simulated parallel HDF5 (dst/h5.py: one in-process handle per rank on a real HDF5 file, collective calls "
      "imposed on top), h5py and the HDF5 library; compression options are skipped by the code for the installed HDF5 1.10. ")
CLAIMED.update({
    "C09": "1-20 ranks, up to some hundred rows, buffers from 1 byte. " + H5,
    "C10": "1-8 files, 1-20 ranks. " + H5,
    "C11": "1-8 files, 1-20 ranks for writing and for reading back. " + H5,
    "C12": "Errors, kills and damaged files at the first ten visits of each I/O site of each rank; an uncaught exception on a rank ends the job, as mpirun does. " + H5,
})
TECH = {k: "deterministic simulation (simulated MPI and parallel HDF5, seeded scheduler, I/O fault injection) against a reference model" for k in ("C09", "C10", "C11", "C12")}
FIO = "Trusts the I/O stand-in (dst/fio.py: real files in a scratch directory, failures injected at opens, maps, stats, reads and writes). "
CLAIMED.update({
    "C16": "One process, up to some dozen files, histories of up to some 40 steps; files are not replaced while open. Disk-full during the HDF5 copy runs in a forked process with a file size limit. " + FIO,
})
TECH.update({k: "deterministic simulation of histories of file accesses with I/O fault injection (errors, kills, interrupts at any open, map, read, write), checked step by step against a reference model" for k in ("C16",)})
CLAIMED["C17"] = "One process, one file at a time, up to some hundred bytes to kilobytes (and sparse files with records of up to 4 GB); the caller's description of the file is correct; damage which keeps lengths and markers intact is out of reach of any reader. The header of MXXL density field files is taken to be what the reader describes. " + FIO
TECH["C17"] = "deterministic simulation of files damaged by crashes of their writer and of I/O failures during access, seeded search over damage and faults, against independently built expected content"
CLAIMED["C18"] = "One process; snapshots of up to 8 files and some hundred particles, non-empty groups and ranges, datasets present in at least one file. " + FIO
TECH["C18"] = "deterministic simulation of histories of partial reads with missing, damaged and unreadable files at any point, seeded search, against a row-by-row reference model"
CLAIMED["C19"] = "Up to 20 ranks, trees of up to some hundred files, up to five jobs in a row; a kill loses nothing that has reached the operating system (no power loss); regular files and links (no FIFOs), names without line breaks. Trusts the simulated MPI, a stand-in for the xattr module, SQLite (real, its system calls intercepted) and hashlib. " + FIO
TECH["C19"] = "deterministic simulation of whole jobs of the program (simulated MPI, shuffled directory listings, kills and failures at any message, file or database system call) followed by resumed jobs, seeded search, against a reference model"
CLAIMED["C20"] = ("One process at a time, histories of up to three processes, up to six handles on three files, arrays of up to 70000 elements; elements never written may have any value; attributes are read with arrays of their own "
                  "shape, as the README demands; files open for writing in a process which fails or is killed are lost; no power loss. Trusts the HDF5 library (real) to report a failed system call at the latest when the file is closed, gfortran, h5py.")
TECH["C20"] = "deterministic simulation of processes using the real wrapper and HDF5 library over simulated system calls (short, failing and killed opens, reads, writes, truncations, closes), seeded search over histories and faults, against an array store model"

CLAIMED["C26"] = "One process checking and one moving files; up to seven snapshots with four or five outputs each of up to 40 files; names in a listing count as files, as the programs document; a first file which is cut behind its header counts as readable. " + FIO
TECH["C26"] = "deterministic simulation of whole program runs interleaved with a process which moves files, failures injected at any open, map, listing or HDF5 read, seeded search, against a model of what was there when"
CLAIMED["C27"] = "One process; forests of up to 60 subhalos in up to five files; masses whose sums are exact; damage of input files which HDF5 cannot notice is out of reach. A full disk is simulated by a file size limit. " + FIO
TECH["C27"] = "deterministic simulation of histories of table-making runs with I/O failures at any open, read and write, damaged inputs and a disk full after any number of bytes, seeded search, against an independent reference model"
CLAIMED["C28"] = "One process, up to three files (opened any number of times) of up to four datasets; exponents of electric current are zero, as their conversion is marked as undecided in the source. Trusts unyt, swiftsimio, astropy (real) to do arithmetic with units. " + FIO
TECH["C28"] = "deterministic simulation of histories of several open files with I/O failures at any open, attribute or dataset read, seeded search, against a model of every file's numbers and units"
CLAIMED["C29"] = "One process, one file at a time; one value overwritten per run, among those the checks are about; values near the tolerance of the mass comparison, and Rockstar files opened with a wrong option, are not judged. " + FIO
TECH["C29"] = "deterministic simulation of files with values overwritten, opened with right and wrong options and with I/O failures at any open or map, seeded search, against consistency rules in exact arithmetic"
