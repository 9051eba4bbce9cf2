from edit_lib import func
V = 'vectors.py'
EDITS = [
func(V, 'get', '''
    def get(self):
        """Get the vector, minus the base vector, times the scale."""
        base_handle = self.__base_vec_handle
        vec = self._get()
        if base_handle is not None:
            cls = VecHandle
            if not (base_handle == cls.cached_base_vec_handle):
                cls.cached_base_vec, cls.cached_base_vec_handle = (
                    base_handle.get(), base_handle)
            vec = vec - cls.cached_base_vec
        return self.__scale_vec(vec)
''', 'VecHandle'),
func(V, '__scale_vec', '''
    def __scale_vec(self, vec):
        """Scales the vector by a scalar."""
        return vec if self.scale is None else vec * self.scale
''', 'VecHandle'),
func(V, '_same_settings', '''
    def _same_settings(self, other):
        """Checks if the base vector and the scale factor are the same."""
        mine = (self.scale, self.__base_vec_handle)
        theirs = (other.scale, other.__base_vec_handle)
        return all(a == b for a, b in zip(mine, theirs))
''', 'VecHandle'),
func(V, '__eq__', '''
    def __eq__(self, other):
        if type(self) is type(other):
            return bool(
                self._same_settings(other) and
                util.smart_eq(self.vec, other.vec))
        return False
''', 'VecHandleInMemory'),
func(V, '__eq__', '''
    def __eq__(self, other):
        same_type = type(other) == type(self)
        return (
            same_type and
            (self.vec_path, self.is_complex) ==
            (other.vec_path, other.is_complex) and
            self._same_settings(other))
''', 'VecHandleArrayText'),
func(V, '_get', '''
    def _get(self):
        """Loads vector from path."""
        file_obj = open(self.vec_path, 'rb')
        try:
            return pickle.load(file_obj)
        finally:
            file_obj.close()
''', 'VecHandlePickle'),
func(V, '_put', '''
    def _put(self, vec):
        """Saves vector to path."""
        data = pickle.dumps(vec)
        with open(self.vec_path, mode='wb') as out:
            out.write(data)
''', 'VecHandlePickle'),
func(V, '__init__', '''
    def __init__(self, *grids):
        if not grids:
            raise ValueError('Must supply at least one 1D grid array')
        shape = []
        for number, grid in enumerate(grids, 1):
            if not isinstance(grid, np.ndarray):
                raise TypeError(
                    'Grid %d of %d is a %s, not a numpy array' % (
                        number, len(grids), type(grid)))
            shape.append(grid.size)
        self.grids = grids
        self.grid_shape = tuple(shape)
''', 'InnerProductTrapz'),
func(V, 'inner_product', '''
    def inner_product(self, vec1, vec2):
        """Computes inner product."""
        for number, vec in ((1, vec1), (2, vec2)):
            if vec.shape != self.grid_shape:
                raise TypeError(
                    'Vector {} shape does not match grid shape: '
                    '{} != {}'.format(number, vec.shape, self.grid_shape))
        IP = np.conj(vec1) * vec2
        axis = len(self.grids)
        while axis > 0:
            axis -= 1
            IP = np.trapz(IP, x=self.grids[axis], axis=-1)
        return IP
''', 'InnerProductTrapz'),
func(V, 'inner_product_array_uniform', '''
    def inner_product_array_uniform(vec1, vec2):
        """Takes inner product of numpy arrays without weighting."""
        return np.sum(np.conj(np.ravel(vec1)) * np.ravel(vec2))
'''),
func(V, '__sub__', '''
    def __sub__(self, other):
        negative = -1 * other
        return self.__add__(negative)
''', 'Vector'),
]
