# vector spaces: one weighting method, guard order, shared limit expression
EDITS = [
('vectorspace.py', '''        if self.weights is None:
            self.compute_inner_product_array = self._IP_no_weights
        elif self.weights.ndim == 1:
            self.compute_inner_product_array = self._IP_1D_weights
        elif self.weights.ndim == 2:
            self.compute_inner_product_array = self._IP_2D_weights
        else:
            raise ValueError('Weights must be None, 1D, or 2D')
''', '''        if self.weights is not None and self.weights.ndim not in (1, 2):
            raise ValueError('Weights must be None, 1D, or 2D')
        if self.weights is None:
            method = self._IP_no_weights
        else:
            method = {1: self._IP_1D_weights, 2: self._IP_2D_weights}[
                self.weights.ndim]
        self.compute_inner_product_array = method
'''),
('vectorspace.py', '''        return np.dot(vecs1.conj().T * self.weights, vecs2)
''', '''        return np.dot(vecs1.T.conj(), self.weights[:, np.newaxis] * vecs2)
'''),
('vectorspace.py', '''        return vecs1.conj().T.dot(self.weights.dot(vecs2))
''', '''        return np.linalg.multi_dot([vecs1.conj().T, self.weights, vecs2])
'''),
('vectorspace.py', '''        if type(other) == type(self):
            return np.array_equal(self.weights, other.weights)
        else:
            return False


    def __ne__''', '''        return (
            type(other) == type(self) and
            bool(np.array_equal(other.weights, self.weights)))


    def __ne__'''),
('vectorspace.py', '''        if max_vecs_per_node is None:
            self.max_vecs_per_node = 10000 # different default?
            self.print_msg((
                'Warning: max_vecs_per_node was not specified. Assuming %d '
                'vecs can be in memory per node. Decrease max_vecs_per_node '
                'if memory errors.') % self.max_vecs_per_node)
        else:
            self.max_vecs_per_node = max_vecs_per_node

        if (
            self.max_vecs_per_node <
            3 * parallel.get_num_procs() / parallel.get_num_nodes()):
            self.max_vecs_per_proc = 3
            self.max_vecs_per_node = int(np.ceil(
                3 * parallel.get_num_procs() / parallel.get_num_nodes()))
''', '''        self.max_vecs_per_node = max_vecs_per_node
        if self.max_vecs_per_node is None:
            self.max_vecs_per_node = 10000 # different default?
            self.print_msg(
                'Warning: max_vecs_per_node was not specified. Assuming {:d} '
                'vecs can be in memory per node. Decrease max_vecs_per_node '
                'if memory errors.'.format(self.max_vecs_per_node))

        min_vecs_per_proc = 3
        min_vecs_per_node = (
            min_vecs_per_proc * parallel.get_num_procs() /
            parallel.get_num_nodes())
        if min_vecs_per_node > self.max_vecs_per_node:
            self.max_vecs_per_proc = min_vecs_per_proc
            self.max_vecs_per_node = int(np.ceil(min_vecs_per_node))
'''),
('vectorspace.py', '''        if self.verbosity > 0 and parallel.is_rank_zero():
            print_msg(msg, output_channel=output_channel)
''', '''        if self.verbosity <= 0:
            return
        if parallel.is_rank_zero():
            print_msg(msg, output_channel=output_channel)
'''),
('vectorspace.py', '''        if self.inner_product is None:
            raise RuntimeError('inner product function is not defined')
''', '''        has_inner_product = self.inner_product is not None
        if not has_inner_product:
            raise RuntimeError('inner product function is not defined')
'''),
]
