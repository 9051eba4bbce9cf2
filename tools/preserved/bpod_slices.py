# BPOD: chunk lists by reshape-free loops, one generic mode method
EDITS = [
('bpod.py', '''        all_adjoint_first_direct_list = [
            all_adjoint_first_direct[
                i * num_outputs:(i + 1) * num_outputs, :num_inputs]
            for i in range(all_adjoint_first_direct.shape[0] // num_outputs)]
        last_adjoint_all_direct_list = [
            last_adjoint_all_direct[:, j * num_inputs:(j + 1) * num_inputs]
            for j in range(last_adjoint_all_direct.shape[1] // num_inputs)]
''', '''        num_rows = all_adjoint_first_direct.shape[0] // num_outputs
        num_cols = last_adjoint_all_direct.shape[1] // num_inputs
        all_adjoint_first_direct_list = []
        for i in range(num_rows):
            start = i * num_outputs
            all_adjoint_first_direct_list.append(
                all_adjoint_first_direct[start:start + num_outputs])
        last_adjoint_all_direct_list = []
        for j in range(num_cols):
            start = j * num_inputs
            last_adjoint_all_direct_list.append(
                last_adjoint_all_direct[:, start:start + num_inputs])
'''),
('bpod.py', '''        build_coeffs = self.R_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        self.vec_space.lin_combine(
            mode_handles, self.direct_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''', '''        self._combine(
            mode_handles, self.direct_vec_handles, self.R_sing_vecs,
            mode_indices)


    def _combine(self, mode_handles, vec_handles, sing_vecs, mode_indices):
        """Puts the modes built from ``vec_handles`` and ``sing_vecs``."""
        build_coeffs = sing_vecs / np.sqrt(self.sing_vals)
        self.vec_space.lin_combine(
            mode_handles, vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
'''),
('bpod.py', '''        build_coeffs = self.L_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        self.vec_space.lin_combine(
            mode_handles, self.adjoint_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''', '''        self._combine(
            mode_handles, self.adjoint_vec_handles, self.L_sing_vecs,
            mode_indices)
'''),
('bpod.py', '''        self.direct_proj_coeffs = np.diag(self.sing_vals ** 0.5).dot(
            self.R_sing_vecs.conj().T)
        return self.direct_proj_coeffs
''', '''        root_sing_vals = np.sqrt(self.sing_vals)
        proj_coeffs = root_sing_vals[:, np.newaxis] * self.R_sing_vecs.conj().T
        self.direct_proj_coeffs = proj_coeffs
        return proj_coeffs
'''),
]
