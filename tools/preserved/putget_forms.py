# put and get methods share module-level helpers; SVD results through a local
EDITS = [
('bpod.py', '''        if parallel.is_rank_zero():
            self.put_array(self.sing_vals, dest)
        parallel.barrier()
''', '''        self._put_on_root('sing_vals', dest)


    def _put_on_root(self, name, dest):
        """Puts the array called ``name`` from rank zero; all wait for it."""
        if parallel.is_rank_zero():
            self.put_array(getattr(self, name), dest)
        parallel.barrier()
'''),
('bpod.py', '''        if parallel.is_rank_zero():
            self.put_array(self.L_sing_vecs, dest)
        parallel.barrier()
''', '''        self._put_on_root('L_sing_vecs', dest)
'''),
('bpod.py', '''        if parallel.is_rank_zero():
            self.put_array(self.R_sing_vecs, dest)
        parallel.barrier()
''', '''        self._put_on_root('R_sing_vecs', dest)
'''),
('bpod.py', '''        self.put_sing_vals(sing_vals_dest)
        self.put_L_sing_vecs(L_sing_vecs_dest)
        self.put_R_sing_vecs(R_sing_vecs_dest)
''', '''        for put, dest in (
            (self.put_R_sing_vecs, R_sing_vecs_dest),
            (self.put_sing_vals, sing_vals_dest),
            (self.put_L_sing_vecs, L_sing_vecs_dest)):
            put(dest)
'''),
('bpod.py', '''        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
            self.get_array, sing_vals_src)))
        self.L_sing_vecs = parallel.call_and_bcast(
            self.get_array, L_sing_vecs_src)
        self.R_sing_vecs = parallel.call_and_bcast(
            self.get_array, R_sing_vecs_src)
''', '''        def fetch(src):
            return parallel.call_and_bcast(self.get_array, src)

        self.L_sing_vecs, self.R_sing_vecs = [
            fetch(src) for src in (L_sing_vecs_src, R_sing_vecs_src)]
        self.sing_vals = np.ravel(fetch(sing_vals_src))
'''),
('bpod.py', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs =\\
            parallel.call_and_bcast(
            util.svd, self.Hankel_array, atol=atol, rtol=rtol)
''', '''        decomp = parallel.call_and_bcast(
            util.svd, self.Hankel_array, atol, rtol)
        self.L_sing_vecs = decomp[0]
        self.sing_vals = decomp[1]
        self.R_sing_vecs = decomp[2]
'''),
('dmd.py', '''        self.put_eigvals(eigvals_dest)
        self.put_R_low_order_eigvecs(R_low_order_eigvecs_dest)
        self.put_L_low_order_eigvecs(L_low_order_eigvecs_dest)
        self.put_correlation_array_eigvals(correlation_array_eigvals_dest)
        self.put_correlation_array_eigvecs(correlation_array_eigvecs_dest)


    def put_eigvals''', '''        dests = {
            'eigvals': eigvals_dest,
            'R_low_order_eigvecs': R_low_order_eigvecs_dest,
            'L_low_order_eigvecs': L_low_order_eigvecs_dest,
            'correlation_array_eigvals': correlation_array_eigvals_dest,
            'correlation_array_eigvecs': correlation_array_eigvecs_dest}
        for name, dest in dests.items():
            getattr(self, 'put_' + name)(dest)


    def put_eigvals'''),
('dmd.py', '''        self.proj_coeffs = parallel.call_and_bcast(self.get_array, src)
        self.adv_proj_coeffs = parallel.call_and_bcast(self.get_array, adv_src)
''', '''        def both():
            return self.get_array(src), self.get_array(adv_src)
        self.proj_coeffs, self.adv_proj_coeffs = parallel.call_and_bcast(both)
'''),
]
