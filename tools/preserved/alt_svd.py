from edit_lib import func
U = 'util.py'
EDITS = [
func(U, 'svd', '''
    def svd(array, atol=1e-13, rtol=None):
        """Truncated singular value decomposition."""
        U, E, V_conj_transpose = np.linalg.svd(np.array(array), full_matrices=0)
        V = np.conj(np.transpose(V_conj_transpose))
        keep = np.ones(E.size, dtype=bool)
        if atol is not None:
            keep &= np.abs(E) > atol
        if rtol is not None:
            keep &= np.abs(E) > rtol * np.max(np.abs(E))
        num_nonzeros = np.count_nonzero(keep)
        U, E, V = U[:, :num_nonzeros], E[:num_nonzeros], V[:, :num_nonzeros]
        return U, E, V
'''),
func(U, 'balanced_truncation', '''
    def balanced_truncation(
        A, B, C, order=None, return_sing_vals=False):
        """Balance and truncate a discrete-time system."""
        A, B, C = [np.array(x) for x in (A, B, C)]
        gram_cont = scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.transpose().conj()))
        gram_obsv = scipy.linalg.solve_discrete_lyapunov(
            A.transpose().conj(), C.transpose().conj().dot(C))
        Uc, Ec, Vc = svd(gram_cont)
        Uo, Eo, Vo = svd(gram_obsv)
        Lc = Uc * np.sqrt(Ec)
        Lo = Uo * np.sqrt(Eo)
        U, E, V = svd(Lo.transpose().conj().dot(Lc))
        order = len(E) if order is None else order
        scale = np.diag(E[:order] ** -0.5)
        SL = Lo.dot(U[:, :order]).dot(scale)
        SR = Lc.dot(V[:, :order]).dot(scale)
        SL_H = SL.transpose().conj()
        result = SL_H.dot(A).dot(SR), SL_H.dot(B), C.dot(SR)
        return result + (E,) if return_sing_vals else result
'''),
]
