# one helper puts arrays
EDITS = [
('pod.py', '''    def put_eigvals(self, dest):
        """Puts eigenvalues of correlation array to ``dest``."""
        if parallel.is_rank_zero():
            self.put_array(self.eigvals, dest)
        parallel.barrier()


    def put_eigvecs(self, dest):
        """Puts eigenvectors of correlation array to ``dest``."""
        if parallel.is_rank_zero():
            self.put_array(self.eigvecs, dest)
        parallel.barrier()


    def put_correlation_array(self, dest):
        """Puts correlation array to ``dest``."""
        if parallel.is_rank_zero():
            self.put_array(self.correlation_array, dest)
        parallel.barrier()


    def put_proj_coeffs(self, dest):
        """Puts projection coefficients to ``dest``"""
        if parallel.is_rank_zero():
            self.put_array(self.proj_coeffs, dest)
        parallel.barrier()
''', '''    def _put(self, name, dest):
        """Puts the array stored as ``name`` to ``dest``."""
        parallel.call_from_rank_zero(self.put_array, getattr(self, name), dest)
        parallel.barrier()


    def put_eigvals(self, dest):
        """Puts eigenvalues of correlation array to ``dest``."""
        self._put('eigvals', dest)


    def put_eigvecs(self, dest):
        """Puts eigenvectors of correlation array to ``dest``."""
        self._put('eigvecs', dest)


    def put_correlation_array(self, dest):
        """Puts correlation array to ``dest``."""
        self._put('correlation_array', dest)


    def put_proj_coeffs(self, dest):
        """Puts projection coefficients to ``dest``"""
        self._put('proj_coeffs', dest)
'''),
('era.py', '''        parallel.call_from_rank_zero(self.put_array, self.A, A_dest)
        parallel.call_from_rank_zero(self.put_array, self.B, B_dest)
        parallel.call_from_rank_zero(self.put_array, self.C, C_dest)
        parallel.barrier()
''', '''        for array, dest in (
            (self.A, A_dest), (self.B, B_dest), (self.C, C_dest)):
            parallel.call_from_rank_zero(self.put_array, array, dest)
        parallel.barrier()
'''),
]
