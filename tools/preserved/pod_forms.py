# POD: broadcasting instead of diagonal matrices, namedtuples at module level
EDITS = [
('pod.py', '''def compute_POD_arrays_snaps_method(
''', '''_SnapsResults = namedtuple(
    'POD_results',
    ['eigvals', 'modes', 'proj_coeffs', 'eigvecs', 'correlation_array'])


def compute_POD_arrays_snaps_method(
'''),
('pod.py', '''    # Compute modes
    build_coeffs = eigvecs.dot(np.diag(eigvals ** -0.5))
    modes = vec_space.lin_combine(
        vecs, build_coeffs, coeff_array_col_indices=mode_indices)

    # Compute projection coefficients
    proj_coeffs = np.diag(eigvals ** 0.5).dot(eigvecs.conj().T)

    # Return a namedtuple
    POD_results = namedtuple(
        'POD_results',
        ['eigvals', 'modes', 'proj_coeffs', 'eigvecs', 'correlation_array'])
    return POD_results(
        eigvals=eigvals, modes=modes, proj_coeffs=proj_coeffs, eigvecs=eigvecs,
        correlation_array=correlation_array)
''', '''    # Compute projection coefficients
    sing_vals = np.sqrt(eigvals)
    proj_coeffs = sing_vals[:, np.newaxis] * eigvecs.T.conj()

    # Compute modes
    modes = vec_space.lin_combine(
        vecs, eigvecs / sing_vals, coeff_array_col_indices=mode_indices)

    return _SnapsResults(
        eigvals, modes, proj_coeffs, eigvecs, correlation_array)
'''),
('pod.py', '''        build_coeffs = np.dot(self.eigvecs, np.diag(self.eigvals**-0.5))
        self.vec_space.lin_combine(
            mode_handles, self.vec_handles, build_coeffs,
''', '''        self.vec_space.lin_combine(
            mode_handles, self.vec_handles,
            self.eigvecs * self.eigvals ** -0.5,
'''),
('pod.py', '''        modes, sing_vals, eigvecs = util.svd(vecs, atol=atol, rtol=rtol)
        if mode_indices is None:
            mode_indices = range(sing_vals.size)
        modes = modes[:, mode_indices]
''', '''        all_modes, sing_vals, eigvecs = util.svd(vecs, atol=atol, rtol=rtol)
        if mode_indices is None:
            modes = all_modes
        else:
            modes = all_modes[:, mode_indices]
'''),
('pod.py', '''        vecs_weighted = np.diag(sqrt_weights).dot(vecs)
''', '''        vecs_weighted = sqrt_weights[:, np.newaxis] * vecs
'''),
('pod.py', '''        inv_sqrt_weights = np.linalg.inv(sqrt_weights)
        modes = inv_sqrt_weights.dot(modes_weighted[:, mode_indices])
''', '''        modes = np.linalg.solve(
            sqrt_weights, modes_weighted[:, mode_indices])
'''),
]
