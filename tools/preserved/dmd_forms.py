# DMD handles: modes through a common helper, coefficients by broadcasting
EDITS = [
('dmd.py', '''    def _compute_build_coeffs_exact(self):
        """Compute build coefficients for exact DMD modes."""
        return self.correlation_array_eigvecs.dot(
            np.diag(self.correlation_array_eigvals ** -0.5).dot(
                self.R_low_order_eigvecs.dot(
                    np.diag(self.eigvals ** -1.))))


    def _compute_build_coeffs_proj(self):
        """Compute build coefficients for projected DMD modes."""
        return self.correlation_array_eigvecs.dot(
            np.diag(self.correlation_array_eigvals ** -0.5).dot(
                self.R_low_order_eigvecs))


    def _compute_build_coeffs_adjoint(self):
        """Compute build coefficients for adjoint DMD modes."""
        return self.correlation_array_eigvecs.dot(
            np.diag(self.correlation_array_eigvals ** -0.5).dot(
                self.L_low_order_eigvecs))


    def compute_exact_modes(
''', '''    def _scaled_eigvecs(self):
        return self.correlation_array_eigvecs / np.sqrt(
            self.correlation_array_eigvals)


    def _compute_build_coeffs_exact(self):
        """Compute build coefficients for exact DMD modes."""
        return self._compute_build_coeffs_proj() / self.eigvals


    def _compute_build_coeffs_proj(self):
        """Compute build coefficients for projected DMD modes."""
        return self._scaled_eigvecs().dot(self.R_low_order_eigvecs)


    def _compute_build_coeffs_adjoint(self):
        """Compute build coefficients for adjoint DMD modes."""
        return np.dot(self._scaled_eigvecs(), self.L_low_order_eigvecs)


    def compute_exact_modes(
'''),
('dmd.py', '''        # If the internal attribute is set, then compute the modes
        if self.adv_vec_handles is not None:
            self.vec_space.lin_combine(
                mode_handles, self.adv_vec_handles, build_coeffs_exact,
                coeff_array_col_indices=mode_indices)
        # If the internal attribute is not set, then check to see if
        # vec_handles is set.  If so, assume a sequential dataset, in which
        # case adv_vec_handles can be taken from a slice of vec_handles.
        elif self.vec_handles is not None:
            if len(self.vec_handles) - build_coeffs_exact.shape[0] == 1:
                self.vec_space.lin_combine(
                    mode_handles, self.vec_handles[1:], build_coeffs_exact,
                    coeff_array_col_indices=mode_indices)
            else:
                raise ValueError(
                    'Number of vec_handles is not correct for a sequential '
                    'dataset.')
        else:
            raise ValueError(
                'Neither vec_handles nor adv_vec_handles is defined.')
''', '''        basis_vec_handles = self.adv_vec_handles
        if basis_vec_handles is None:
            if self.vec_handles is None:
                raise ValueError(
                    'Neither vec_handles nor adv_vec_handles is defined.')
            if len(self.vec_handles) != build_coeffs_exact.shape[0] + 1:
                raise ValueError(
                    'Number of vec_handles is not correct for a sequential '
                    'dataset.')
            basis_vec_handles = self.vec_handles[1:]
        self.vec_space.lin_combine(
            mode_handles, basis_vec_handles, build_coeffs_exact,
            coeff_array_col_indices=mode_indices)
'''),
]
