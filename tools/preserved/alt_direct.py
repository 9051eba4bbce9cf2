from edit_lib import func
D = 'dmd.py'
EDITS = [
func(D, 'compute_DMD_arrays_direct_method', '''
    def _weight_sqrt_times(inner_product_weights, array):
        """Multiplies by the square root of the weights."""
        if inner_product_weights is None:
            return array
        if inner_product_weights.ndim == 1:
            return (inner_product_weights ** 0.5)[:, np.newaxis] * array
        if inner_product_weights.shape[0] > 500:
            print('Warning: Cholesky decomposition could be time consuming.')
        factor = np.linalg.cholesky(inner_product_weights)
        return np.dot(factor.conj().T, array)


    def compute_DMD_arrays_direct_method(
        vecs, adv_vecs=None, mode_indices=None, inner_product_weights=None,
        atol=1e-13, rtol=None, max_num_eigvals=None):
        """Computes DMD modes using data stored in arrays, using direct method."""
        if parallel.is_distributed():
            raise RuntimeError('Cannot run in parallel.')
        vec_space = VectorSpaceArrays(weights=inner_product_weights)

        # A sequential dataset is a pair of overlapping ones
        if adv_vecs is None:
            all_vecs = np.array(vecs)
            vecs, adv_vecs = all_vecs[:, :-1], all_vecs[:, 1:]
        else:
            vecs, adv_vecs = np.array(vecs), np.array(adv_vecs)
            if vecs.shape != adv_vecs.shape:
                raise ValueError('vecs and adv_vecs are not the same shape.')
        X = _weight_sqrt_times(inner_product_weights, vecs)
        Y = _weight_sqrt_times(inner_product_weights, adv_vecs)

        U, sing_vals, V = util.svd(X, atol=atol, rtol=rtol)
        if max_num_eigvals is not None:
            keep = slice(max_num_eigvals)
            U, sing_vals, V = U[:, keep], sing_vals[keep], V[:, keep]
        V_H = V.conj().T
        inv_sing_vals = np.diag(1. / sing_vals)
        cross = X.conj().T.dot(Y)

        eigvals, R, L = util.eig_biorthog(
            inv_sing_vals.dot(V_H).dot(cross).dot(V).dot(inv_sing_vals),
            scale_choice='left')
        L_H = L.conj().T

        basis = V.dot(inv_sing_vals)
        build_proj = basis.dot(R)
        build_exact = build_proj / eigvals
        build_adjoint = basis.dot(L)
        proj_coeffs = L_H.dot(np.diag(sing_vals)).dot(V_H)
        combine = lambda data, coeffs: vec_space.lin_combine(
            data, coeffs, coeff_array_col_indices=mode_indices)

        DMD_results = namedtuple(
            'DMD_results', [
                'exact_modes', 'proj_modes', 'adjoint_modes',
                'spectral_coeffs', 'proj_coeffs', 'adv_proj_coeffs',
                'eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
                'correlation_array_eigvals', 'correlation_array_eigvecs'])
        return DMD_results(
            combine(adv_vecs, build_exact), combine(vecs, build_proj),
            combine(vecs, build_adjoint), np.abs(proj_coeffs[:, 0]),
            proj_coeffs, L_H.dot(inv_sing_vals).dot(V_H).dot(cross),
            eigvals, R, L, sing_vals ** 2., V)
'''),
]
