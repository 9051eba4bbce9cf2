# DMD arrays: a helper for the three sets of modes
EDITS = [
('dmd.py', '''def compute_DMD_arrays_snaps_method(
''', '''def _combine(vec_space, vecs, adv_vecs, coeffs, mode_indices):
    """Exact, projected and adjoint modes"""
    exact, proj, adjoint = coeffs
    num_extra = vecs.shape[1] - exact.shape[0]
    if num_extra == 1:
        late, early = vecs[:, 1:], vecs[:, :-1]
    elif num_extra == 0:
        late, early = adv_vecs, vecs
    else:
        raise ValueError(
            'Number of cols in vecs does not match number of rows in '
            'build_coeffs array.')
    return [
        vec_space.lin_combine(
            basis, coeff, coeff_array_col_indices=mode_indices)
        for basis, coeff in ((late, exact), (early, proj), (early, adjoint))]


def compute_DMD_arrays_snaps_method(
'''),
('dmd.py', '''        np.diag(correlation_array_eigvals ** -0.5).dot(
            correlation_array_eigvecs.conj().T.dot(
                cross_correlation_array)))

    # For sequential data, user must provide one more vec than columns of
    # build_coeffs.
    if vecs.shape[1] - build_coeffs_exact.shape[0] == 1:
        exact_modes = vec_space.lin_combine(
            vecs[:, 1:], build_coeffs_exact,
            coeff_array_col_indices=mode_indices)
        proj_modes = vec_space.lin_combine(
            vecs[:, :-1], build_coeffs_proj,
            coeff_array_col_indices=mode_indices)
        adjoint_modes = vec_space.lin_combine(
            vecs[:, :-1], build_coeffs_adjoint,
            coeff_array_col_indices=mode_indices)
    # For non-sequential data, user must provide as many vecs as columns of
    # build_coeffs.
    elif vecs.shape[1] == build_coeffs_exact.shape[0]:
        exact_modes = vec_space.lin_combine(
            adv_vecs, build_coeffs_exact, coeff_array_col_indices=mode_indices)
        proj_modes = vec_space.lin_combine(
            vecs, build_coeffs_proj, coeff_array_col_indices=mode_indices)
        adjoint_modes = vec_space.lin_combine(
            vecs, build_coeffs_adjoint, coeff_array_col_indices=mode_indices)
    else:
        raise ValueError(
            'Number of cols in vecs does not match number of rows in '
            'build_coeffs array.')
''', '''        np.diag(correlation_array_eigvals ** -0.5).dot(
            correlation_array_eigvecs.conj().T.dot(
                cross_correlation_array)))

    exact_modes, proj_modes, adjoint_modes = _combine(
        vec_space, vecs, adv_vecs,
        (build_coeffs_exact, build_coeffs_proj, build_coeffs_adjoint),
        mode_indices)
'''),
]
