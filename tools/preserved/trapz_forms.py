# inner products: loop of checks, np.conj, indices
EDITS = [
('vectors.py', '''        if vec1.shape != self.grid_shape:
            raise TypeError(
                'Vector 1 shape does not match grid shape: '
                '{} != {}'.format(vec1.shape, self.grid_shape))
        if vec2.shape != self.grid_shape:
            raise TypeError(
                'Vector 2 shape does not match grid shape: '
                '{} != {}'.format(vec2.shape, self.grid_shape))
        # IP starts as an array of shape vec1 (=vec2) and the subsequent
        # loop over the grids collapses each dimension after integrating
        # over that dimension until IP is a scalar by the end of the loop
        # over the grids.
        IP = vec1.conj() * vec2
        for grid in reversed(self.grids):
            IP = np.trapz(IP, x=grid)
        return IP
''', '''        for num, vec in enumerate((vec1, vec2)):
            if vec.shape != self.grid_shape:
                raise TypeError(
                    'Vector {:d} shape does not match grid shape: '
                    '{} != {}'.format(num + 1, vec.shape, self.grid_shape))
        IP = np.conj(vec1) * vec2
        for grid in self.grids[::-1]:
            IP = np.trapz(IP, x=grid, axis=-1)
        return IP
'''),
('vectors.py', '''    return np.vdot(vec1, vec2)
''', '''    return np.sum(np.conj(vec1) * vec2)
'''),
('vectors.py', '''        if len(grids) == 0:
            raise ValueError('Must supply at least one 1D grid array')
''', '''        if not grids:
            raise ValueError('Must supply at least one 1D grid array')
'''),
('vectors.py', '''        self.grid_shape = tuple(g.size for g in grids)
''', '''        self.grid_shape = tuple([grid.size for grid in self.grids])
'''),
('vectors.py', '''        return self + (-1 * other)''', '''        return self + other * -1'''),
]
