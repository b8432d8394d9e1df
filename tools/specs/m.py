exec(open("/verif/tools/specs/a.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b06-eager", prop="C06", timeout=40,
 edits=[(PS, """        comm.Sendrecv([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest,
                      recvbuf=[recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv],
                      source=dest)
""", """        send_buf_spec = [sendbuf[send_offset:send_offset+nr_send], mpi_type_send]
        recv_buf_spec = [recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv]
        if max(nr_send, nr_recv) * sendbuf.dtype.itemsize <= 512:
            # Small messages don't need a request
            comm.Send(send_buf_spec, dest)
            comm.Recv(recv_buf_spec, source=dest)
        else:
            comm.Sendrecv(send_buf_spec, dest, recvbuf=recv_buf_spec, source=dest)
""")],
 needs="an MPI library (or settings of it) which does not buffer short messages", breaks="both sides wait for the other to receive",
 np=2,
 demo=D("""
a = np.arange(40) + 100 * rank
b = np.zeros(40, dtype=int)
psort.sendrecv(1 - rank, a, b)
if not np.array_equal(b, np.arange(40) + 100 * (1 - rank)): fail(str(b))
""")),
]
