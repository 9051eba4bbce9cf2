# rank and number of processes in locals
EDITS = [
('vectorspace.py', '''        # convenience
        rank = parallel.get_rank()
''', '''        # convenience
        rank, num_procs = parallel.get_rank(), parallel.get_num_procs()
'''),
('vectorspace.py', '''                for pass_index in range(parallel.get_num_procs()):
                    # If on the first pass, get the col vecs, no send/recv
                    # This is all that is called when in serial, loop iterates
                    # once.
                    if pass_index == 0:
                        col_vecs = [
                            col_handle.get() for col_handle in
                            col_vec_handles[start_col_index:end_col_index]]
                    else:
                        # Determine with whom to communicate
                        dest = (rank + 1) % parallel.get_num_procs()
                        source = (rank - 1) % parallel.get_num_procs()

                        # Create unique tag based on send/recv ranks
                        send_tag = (
                            rank * (parallel.get_num_procs() + 1) + dest)
                        recv_tag = (
                            source * (parallel.get_num_procs() + 1) + rank)
''', '''                dest = (rank + 1) % num_procs
                source = (num_procs + rank - 1) % num_procs
                send_tag = rank + num_procs * rank + dest
                recv_tag = (num_procs + 1) * source + rank
                for pass_index in range(num_procs):
                    # If on the first pass, get the col vecs, no send/recv
                    # This is all that is called when in serial, loop iterates
                    # once.
                    if pass_index < 1:
                        col_vecs = [
                            col_handle.get() for col_handle in
                            col_vec_handles[start_col_index:end_col_index]]
                    else:
'''),
]
