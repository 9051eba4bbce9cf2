# the ring exchange in a helper method
EDITS = [
('vectorspace.py', '''    def compute_inner_product_array(self, row_vec_handles, col_vec_handles):
        """Computes array whose''', '''    def _pass_around(self, vecs, indices):
        """Sends vecs to the next processor, receives those of the previous."""
        my_rank = parallel.get_rank()
        num_procs = parallel.get_num_procs()
        next_rank = (my_rank + 1) % num_procs
        prev_rank = (my_rank - 1) % num_procs
        request = parallel.comm.isend(
            (vecs, indices), dest=next_rank,
            tag=my_rank * (num_procs + 1) + next_rank)
        received = parallel.comm.recv(
            source=prev_rank, tag=prev_rank * (num_procs + 1) + my_rank)
        request.Wait()
        parallel.barrier()
        return received


    def compute_inner_product_array(self, row_vec_handles, col_vec_handles):
        """Computes array whose'''),
('vectorspace.py', '''                        # Determine with whom to communicate
                        dest = (rank + 1) % parallel.get_num_procs()
                        source = (rank - 1) % parallel.get_num_procs()

                        # Create unique tag based on send/recv ranks
                        send_tag = (
                            rank * (parallel.get_num_procs() + 1) + dest)
                        recv_tag = (
                            source * (parallel.get_num_procs() + 1) + rank)

                        # Collect data and send/receive
                        col_vecs_send = (col_vecs, col_indices)
                        request = parallel.comm.isend(
                            col_vecs_send, dest=dest, tag=send_tag)
                        col_vecs_recv = parallel.comm.recv(
                            source=source, tag=recv_tag)
                        request.Wait()
                        parallel.barrier()
                        col_indices = col_vecs_recv[1]
                        col_vecs = col_vecs_recv[0]

                    # Compute the IPs for this set of data col_indices stores
                    # the indices of the IP_array columns to be filled in.
''', '''                        col_vecs, col_indices = self._pass_around(
                            col_vecs, col_indices)

                    # Compute the IPs for this set of data col_indices stores
                    # the indices of the IP_array columns to be filled in.
'''),
('vectorspace.py', '''                        # Figure out with whom to communicate
                        source = (
                            parallel.get_rank() - 1) % parallel.get_num_procs()
                        dest = (
                            parallel.get_rank() + 1) % parallel.get_num_procs()

                        #Create unique tags based on ranks
                        send_tag = (
                            parallel.get_rank() *
                            (parallel.get_num_procs() + 1) + dest)
                        recv_tag = source * (
                            parallel.get_num_procs() + 1) + parallel.get_rank()

                        # Send/receive data
                        basis_vecs_send = (basis_vecs, basis_indices)
                        request = parallel.comm.isend(
                            basis_vecs_send, dest=dest, tag=send_tag)
                        basis_vecs_recv = parallel.comm.recv(
                            source=source, tag=recv_tag)
                        request.Wait()
                        parallel.barrier()
                        basis_indices = basis_vecs_recv[1]
                        basis_vecs = basis_vecs_recv[0]
''', '''                        basis_vecs, basis_indices = self._pass_around(
                            basis_vecs, basis_indices)
'''),
]
