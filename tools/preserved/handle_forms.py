# vectors: cached base fetched by a helper, equality by tuples, super()
EDITS = [
('vectors.py', '''        vec = self._get()
        if self.__base_vec_handle is None:
            return self.__scale_vec(vec)
        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
            base_vec = VecHandle.cached_base_vec
        else:
            base_vec = self.__base_vec_handle.get()
            VecHandle.cached_base_vec_handle = self.__base_vec_handle
            VecHandle.cached_base_vec = base_vec
        return self.__scale_vec(vec - base_vec)
''', '''        vec = self._get()
        if self.__base_vec_handle is not None:
            vec = vec - self.__get_base_vec()
        if self.scale is None:
            return vec
        return vec * self.scale


    def __get_base_vec(self):
        """Returns the base vector, from the cache when it is there."""
        handle = self.__base_vec_handle
        if not (handle == VecHandle.cached_base_vec_handle):
            base_vec = handle.get()
            VecHandle.cached_base_vec = base_vec
            VecHandle.cached_base_vec_handle = handle
        return VecHandle.cached_base_vec
'''),
('vectors.py', '''    def __scale_vec(self, vec):
        """Scales the vector by a scalar."""
        if self.scale is not None:
            return vec*self.scale
        return vec


''', ''),
('vectors.py', '''        if type(other) != type(self):
            return False
        return (
            self.vec_path == other.vec_path and
            self.is_complex == other.is_complex and
            self._same_settings(other))
''', '''        return (
            type(other) == type(self) and
            (self.vec_path, self.is_complex) ==
            (other.vec_path, other.is_complex) and
            self._same_settings(other))
'''),
('vectors.py', '''        if type(other) != type(self):
            return False
        return (
            util.smart_eq(self.vec, other.vec) and self._same_settings(other))
''', '''        if type(other) != type(self) or not self._same_settings(other):
            return False
        return util.smart_eq(self.vec, other.vec)
'''),
('vectors.py', '''        return (
            self.scale == other.scale and
            self.__base_vec_handle == other.__base_vec_handle)
''', '''        if self.scale != other.scale:
            return False
        return self.__base_vec_handle == other.__base_vec_handle
'''),
('vectors.py', '''        with open(self.vec_path, 'wb') as file_obj:
            pickle.dump(vec, file_obj)
''', '''        file_obj = open(self.vec_path, 'wb')
        try:
            pickle.dump(vec, file_obj)
        finally:
            file_obj.close()
'''),
('vectors.py', '''        with open(self.vec_path, 'rb') as file_obj:
            to_return = pickle.load(file_obj)
        return to_return
''', '''        with open(self.vec_path, 'rb') as pickle_file:
            return pickle.load(pickle_file)
'''),
]
