# handles: base vector in a helper; trapezoidal rule with an explicit axis
EDITS = [
('vectors.py', '''        vec = self._get()
        if self.__base_vec_handle is None:
            return self.__scale_vec(vec)
        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
            base_vec = VecHandle.cached_base_vec
        else:
            base_vec = self.__base_vec_handle.get()
            VecHandle.cached_base_vec_handle = self.__base_vec_handle
            VecHandle.cached_base_vec = base_vec
        return self.__scale_vec(vec - base_vec)
''', '''        vec = self._get()
        if self.__base_vec_handle is not None:
            vec = vec - self.__get_base_vec()
        return self.__scale_vec(vec)


    def __get_base_vec(self):
        """The base vector, from the cache if it is there"""
        if self.__base_vec_handle != VecHandle.cached_base_vec_handle:
            VecHandle.cached_base_vec = self.__base_vec_handle.get()
            VecHandle.cached_base_vec_handle = self.__base_vec_handle
        return VecHandle.cached_base_vec
'''),
('vectors.py', '''        if self.scale is not None:
            return vec*self.scale
        return vec
''', '''        return vec if self.scale is None else vec * self.scale
'''),
('vectors.py', '''        with open(self.vec_path, 'rb') as file_obj:
            to_return = pickle.load(file_obj)
        return to_return
''', '''        with open(self.vec_path, 'rb') as file_obj:
            return pickle.load(file_obj)
'''),
('vectors.py', '''        IP = vec1.conj() * vec2
        for grid in reversed(self.grids):
            IP = np.trapz(IP, x=grid)
        return IP
''', '''        integrand = np.conj(vec1) * vec2
        for grid in self.grids:
            integrand = np.trapz(integrand, grid, axis=0)
        return integrand
'''),
('vectors.py', '''        if vec1.shape != self.grid_shape:
            raise TypeError(
                'Vector 1 shape does not match grid shape: '
                '{} != {}'.format(vec1.shape, self.grid_shape))
        if vec2.shape != self.grid_shape:
            raise TypeError(
                'Vector 2 shape does not match grid shape: '
                '{} != {}'.format(vec2.shape, self.grid_shape))
''', '''        for number, vec in enumerate((vec1, vec2), 1):
            if vec.shape != self.grid_shape:
                raise TypeError(
                    'Vector {} shape does not match grid shape: '
                    '{} != {}'.format(number, vec.shape, self.grid_shape))
'''),
('vectors.py', '''        if type(other) != type(self):
            return False
        return (
            self.vec_path == other.vec_path and
            self.is_complex == other.is_complex and
            self._same_settings(other))
''', '''        return (
            type(other) == type(self) and
            (self.vec_path, self.is_complex) ==
            (other.vec_path, other.is_complex) and
            self._same_settings(other))
'''),
]
