# BPOD: chunk lists from a helper, modes through a helper
EDITS = [
('bpod.py', '''        self.Hankel_array = parallel.call_and_bcast(
            util.Hankel_chunks,
            all_adjoint_first_direct_list, last_adjoint_all_direct_list)
''', '''        Hankel_array = parallel.call_from_rank_zero(
            util.Hankel_chunks,
            all_adjoint_first_direct_list, last_adjoint_all_direct_list)
        self.Hankel_array = parallel.bcast(Hankel_array)
'''),
('bpod.py', '''            raise util.UndefinedError('direct_vec_handles undefined')
        build_coeffs = self.R_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        self.vec_space.lin_combine(
            mode_handles, self.direct_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''', '''            raise util.UndefinedError('direct_vec_handles undefined')
        self._compute_modes(
            self.direct_vec_handles, self.R_sing_vecs, mode_indices,
            mode_handles)


    def _compute_modes(self, vec_handles, sing_vecs, indices, handles):
        """Modes from one set of singular vectors"""
        self.vec_space.lin_combine(
            handles, vec_handles, sing_vecs / self.sing_vals ** 0.5,
            coeff_array_col_indices=indices)
'''),
('bpod.py', '''            raise util.UndefinedError('adjoint_vec_handles undefined')
        build_coeffs = self.L_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        self.vec_space.lin_combine(
            mode_handles, self.adjoint_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''', '''            raise util.UndefinedError('adjoint_vec_handles undefined')
        self._compute_modes(
            self.adjoint_vec_handles, self.L_sing_vecs, mode_indices,
            mode_handles)
'''),
]
