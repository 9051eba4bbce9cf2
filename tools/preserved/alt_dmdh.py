from edit_lib import func, nth
D = 'dmd.py'
EDITS = [
nth(D, '''        # Truncate if necessary
        if max_num_eigvals is not None and (
            max_num_eigvals < self.correlation_array_eigvals.size):
            self.correlation_array_eigvals = self.correlation_array_eigvals[
                :max_num_eigvals]
            self.correlation_array_eigvecs = self.correlation_array_eigvecs[
                :, :max_num_eigvals]

        # Compute low-order linear map
        correlation_array_eigvals_sqrt_inv = np.diag(
            self.correlation_array_eigvals ** -0.5)
        self.low_order_linear_map = correlation_array_eigvals_sqrt_inv.dot(
            self.correlation_array_eigvecs.conj().T.dot(
                self.cross_correlation_array.dot(
                    self.correlation_array_eigvecs.dot(
                        correlation_array_eigvals_sqrt_inv))))
''', '''        evals, evecs = _leading(
            self.correlation_array_eigvals, self.correlation_array_eigvecs,
            max_num_eigvals)
        self.correlation_array_eigvals = evals
        self.correlation_array_eigvecs = evecs

        # Compute low-order linear map
        basis = evecs / np.sqrt(evals)
        self.low_order_linear_map = np.conj(basis).T.dot(
            self.cross_correlation_array).dot(basis)
'''),
('dmd.py', '''class DMDHandles(''', '''def _leading(evals, evecs, max_num_eigvals):
    """Keeps the leading eigenvalues and eigenvectors."""
    if max_num_eigvals is None or max_num_eigvals >= len(evals):
        return evals, evecs
    return evals[0:max_num_eigvals], evecs[:, 0:max_num_eigvals]


class DMDHandles('''),
func(D, 'compute_spectrum', '''
    def compute_spectrum(self):
        """Computes DMD spectral coefficients."""
        weights = np.sqrt(self.correlation_array_eigvals)
        first = np.conj(self.correlation_array_eigvecs[0])
        L_H = np.transpose(self.L_low_order_eigvecs.conj())
        self.spectral_coeffs = abs(np.dot(L_H, weights * first))
        return self.spectral_coeffs
''', 'DMDHandles'),
func(D, 'compute_exact_modes', '''
    def compute_exact_modes(
        self, mode_indices, mode_handles, adv_vec_handles=None):
        """Computes exact DMD modes and calls ``put`` on them using mode
        handles."""
        if adv_vec_handles is not None:
            self.adv_vec_handles = adv_vec_handles
        coeffs = self._compute_build_coeffs_exact()
        handles = self.adv_vec_handles
        if handles is None:
            # A sequential dataset
            if self.vec_handles is None:
                raise ValueError(
                    'Neither vec_handles nor adv_vec_handles is defined.')
            if len(self.vec_handles) != coeffs.shape[0] + 1:
                raise ValueError(
                    'Number of vec_handles is not correct for a sequential '
                    'dataset.')
            handles = self.vec_handles[1:]
        self.vec_space.lin_combine(
            mode_handles, handles, coeffs,
            coeff_array_col_indices=mode_indices)
''', 'DMDHandles'),
]
