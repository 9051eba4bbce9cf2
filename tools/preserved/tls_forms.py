# TLS DMD: the projector in a local
EDITS = [
('dmd.py', '''    proj_correlation_array = sum_correlation_array_eigvecs.dot(
        sum_correlation_array_eigvecs.conj().T.dot(
            correlation_array.dot(
                sum_correlation_array_eigvecs.dot(
                    sum_correlation_array_eigvecs.conj().T))))
    proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
''', '''    projector = sum_correlation_array_eigvecs.dot(
        sum_correlation_array_eigvecs.conj().T)
    proj_correlation_array = projector.dot(correlation_array).dot(projector)
    proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
'''),
('dmd.py', '''    # Compute low-order linear map
    proj_correlation_array_eigvals_sqrt_inv = np.diag(
        proj_correlation_array_eigvals ** -0.5)
    low_order_linear_map = proj_correlation_array_eigvals_sqrt_inv.dot(
        proj_correlation_array_eigvecs.conj().T.dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.conj().T.dot(
                    cross_correlation_array.dot(
                        sum_correlation_array_eigvecs.dot(
                            sum_correlation_array_eigvecs.conj().T.dot(
                                proj_correlation_array_eigvecs.dot(
                                    proj_correlation_array_eigvals_sqrt_inv
                                ))))))))
''', '''    # Compute low-order linear map
    whitening = proj_correlation_array_eigvecs.dot(
        np.diag(1. / np.sqrt(proj_correlation_array_eigvals)))
    low_order_linear_map = whitening.conj().T.dot(projector).dot(
        cross_correlation_array).dot(projector).dot(whitening)
'''),
]
