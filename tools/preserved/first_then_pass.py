# compute, then exchange, rather than exchange, then compute
EDITS = [
('vectorspace.py', '''                for pass_index in range(parallel.get_num_procs()):
                    # If on the first pass, retrieve the basis vecs,
                    # no send/recv.
                    # This is all that is called when in serial,
                    # loop iterates once.
                    if pass_index == 0:
                        if len(basis_indices) > 0:
                            basis_vecs = [
                                basis_handle.get() for basis_handle in
                                basis_vec_handles[
                                    basis_indices[0]:basis_indices[-1] + 1]]
                        else:
                            basis_vecs = []
                    else:
''', '''                basis_vecs = [
                    basis_vec_handles[index].get() for index in basis_indices]
                for pass_index in range(parallel.get_num_procs()):
                    if pass_index > 0:
'''),
]
