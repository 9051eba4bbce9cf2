from edit_lib import func
L = 'ltigalerkinproj.py'
A, H = 'LTIGalerkinProjectionArrays', 'LTIGalerkinProjectionHandles'
red = '''
    def reduce_%s(self, images):
        """Computes the reduced %s array."""
        self.%s_reduced = self._project(%s)
        return self.%s_reduced
'''
def names(src, old): return src.replace('images', old)
PROJ = '''
    def _project(self, images):
        """Projects onto the basis, along the adjoint basis."""
        projected = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_%s, images)
        if self.is_basis_orthonormal:
            return projected
        return np.dot(self._get_proj_array(), projected)
'''
INV = '''
    def _get_proj_array(self):
        """Gets the projection array."""
        if self._proj_array is not None:
            return self._proj_array
        if not self.symmetric:
            products = self.vec_space.compute_inner_product_array(
                self.adjoint_basis_%s, self.basis_%s)
        else:
            products = self.vec_space.compute_symm_inner_product_array(
                self.basis_%s)
        self._proj_array = np.linalg.inv(products)
        return self._proj_array
'''
EDITS = [
func(L, 'reduce_A', names(red % ('A', 'A', 'A', 'np.array(images)', 'A'), 'A_on_basis_vecs'), A),
func(L, 'reduce_B', names(red % ('B', 'B', 'B', 'np.array(images)', 'B'), 'B_on_standard_basis_array'), A),
func(L, '_get_proj_array', PROJ % 'vecs' + INV % ('vecs', 'vecs', 'vecs'), A),
func(L, 'compute_model', '''
    def compute_model(
        self, A_on_basis_vecs, B_on_standard_basis_array, C_on_basis_vecs):
        """Computes the reduced A, B, and C arrays."""
        return (
            self.reduce_A(A_on_basis_vecs),
            self.reduce_B(B_on_standard_basis_array),
            self.reduce_C(C_on_basis_vecs))
''', A),
func(L, 'reduce_C', '''
    def reduce_C(self, C_on_basis_vecs):
        """Computes the reduced C array."""
        self.C_reduced = np.atleast_2d(np.array(C_on_basis_vecs))
        return self.C_reduced
''', A),
func(L, 'reduce_A', names(red % ('A', 'A', 'A', 'images', 'A'), 'A_on_basis_vec_handles'), H),
func(L, 'reduce_B', names(red % ('B', 'B', 'B', 'images', 'B'), 'B_on_standard_basis_handles'), H),
func(L, '_get_proj_array', PROJ % 'vec_handles' + INV % ('vec_handles', 'vec_handles', 'vec_handles'), H),
func(L, 'reduce_C', '''
    def reduce_C(self, C_on_basis_vecs):
        """Computes the reduced C array."""
        self.C_reduced = np.transpose(np.array(C_on_basis_vecs, ndmin=2))
        return self.C_reduced
''', H),
func(L, '__init__', '''
    def __init__(
        self, basis_vecs, adjoint_basis_vecs=None, is_basis_orthonormal=False,
        inner_product_weights=None, put_array=util.save_array_text):
        """Constructor"""
        if parallel.is_distributed():
            raise RuntimeError('Not for parallel use.')
        LTIGalerkinProjectionBase.__init__(
            self, is_basis_orthonormal, put_array)
        self.symmetric = adjoint_basis_vecs is None
        self.basis_vecs = np.array(basis_vecs)
        self.adjoint_basis_vecs = (
            self.basis_vecs if self.symmetric else np.array(adjoint_basis_vecs))
        if self.adjoint_basis_vecs.shape != self.basis_vecs.shape:
            raise ValueError(
                'Basis vec and adjoint basis vec arrays are different '
                'shapes.')
        self.vec_space = VectorSpaceArrays(weights=inner_product_weights)
''', A),
func(L, 'compute_derivs_handles', '''
    def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
        """Computes 1st-order time derivatives of vector objects, using handles."""
        counts = [len(h) for h in (vec_handles, adv_vec_handles, deriv_vec_handles)]
        if counts[0] != counts[1] or counts[0] != counts[2]:
            raise RuntimeError('Number of vectors not equal')
        scale = 1. / dt
        my_tasks = parallel.find_assignments(
            list(range(counts[0])))[parallel.get_rank()]
        for i in my_tasks:
            now, later = vec_handles[i].get(), adv_vec_handles[i].get()
            difference = later + (-1.) * now
            deriv_vec_handles[i].put(scale * difference)
        parallel.barrier()
'''),
func(L, 'compute_derivs_arrays', '''
    def compute_derivs_arrays(vecs, adv_vecs, dt):
        """Computes 1st-order time derivatives using data stored in arrays."""
        vecs = np.array(vecs)
        adv_vecs = np.array(adv_vecs)
        return (adv_vecs - vecs) / float(dt)
'''),
]
