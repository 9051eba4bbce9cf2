# LTI: A and B reduced by one helper
EDITS = [
('ltigalerkinproj.py', '''        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
        if not self.is_basis_orthonormal:
            self.A_reduced = self._get_proj_array().dot(self.A_reduced)
        return self.A_reduced
''', '''        self.A_reduced = self._project(A_on_basis_vec_handles)
        return self.A_reduced


    def _project(self, handles):
        """Coordinates of the projections of the vectors"""
        coords = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, handles)
        if self.is_basis_orthonormal:
            return coords
        return np.dot(self._get_proj_array(), coords)
'''),
('ltigalerkinproj.py', '''        self.B_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, B_on_standard_basis_handles)
        if not self.is_basis_orthonormal:
            self.B_reduced = self._get_proj_array().dot(self.B_reduced)
        return self.B_reduced
''', '''        self.B_reduced = self._project(B_on_standard_basis_handles)
        return self.B_reduced
'''),
('ltigalerkinproj.py', '''        self.reduce_A(A_on_basis_vec_handles)
        self.reduce_B(B_on_standard_basis_handles)
        self.reduce_C(C_on_basis_vecs)
        return self.A_reduced, self.B_reduced, self.C_reduced


    def _get_proj_array(self):
        """Gets the projection array, i.e. ``inv(adjoint_vecs^* direct_vecs)``.
        """
        if self._proj_array is None:
            if self.symmetric:
                IP_array = self.vec_space.compute_symm_inner_product_array(
                    self.basis_vec_handles)
            else:
                IP_array = self.vec_space.compute_inner_product_array(
                    self.adjoint_basis_vec_handles, self.basis_vec_handles)
            self._proj_array = np.linalg.inv(IP_array)
        return self._proj_array
''', '''        return (
            self.reduce_A(A_on_basis_vec_handles),
            self.reduce_B(B_on_standard_basis_handles),
            self.reduce_C(C_on_basis_vecs))


    def _get_proj_array(self):
        """Gets the projection array, i.e. ``inv(adjoint_vecs^* direct_vecs)``.
        """
        if self._proj_array is not None:
            return self._proj_array
        if self.symmetric:
            IP_array = self.vec_space.compute_symm_inner_product_array(
                self.basis_vec_handles)
        else:
            IP_array = self.vec_space.compute_inner_product_array(
                self.adjoint_basis_vec_handles, self.basis_vec_handles)
        self._proj_array = np.linalg.inv(IP_array)
        return self._proj_array
'''),
('ltigalerkinproj.py', '''        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vecs, np.array(A_on_basis_vecs))
        if not self.is_basis_orthonormal:
            self.A_reduced = self._get_proj_array().dot(self.A_reduced)
        return self.A_reduced
''', '''        A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vecs, np.array(A_on_basis_vecs))
        self.A_reduced = (
            A_reduced if self.is_basis_orthonormal
            else self._get_proj_array().dot(A_reduced))
        return self.A_reduced
'''),
]
