# sanity check: local helper for the comparison of squared magnitudes
EDITS = [
('vectorspace.py', '''        # Check that inner product of scaled vector is correct
        scale_factor = 2.
        vec_mult = test_vec * scale_factor
        if abs(
            self.inner_product(vec_mult, vec_mult) -
            vec_copy_mag_sq * scale_factor ** 2) > tol:
            raise ValueError(
                'Inner product of vector with itself is incorrect after scalar '
                'multiplication.')

        # Check that inner product of original vector hasn't changed due to
        # scalar multiplication.
        if abs(
            self.inner_product(test_vec, test_vec) - vec_copy_mag_sq) > tol:
            raise ValueError(
                'Inner product of original test vector with itself has changed '
                'value after scalar multiplication.')

        # Check that the inner product of a summed vector is correct
        vec_add = test_vec + test_vec
        if abs(
            self.inner_product(vec_add, vec_add) - vec_copy_mag_sq * 4) > tol:
            raise ValueError(
                'Inner product of vector with itself is incorrect after '
                'vector addition.')
''', '''        def check(vec, factor, message):
            mag_sq = self.inner_product(vec, vec)
            if abs(mag_sq - factor * vec_copy_mag_sq) > tol:
                raise ValueError(message)

        # Check that inner product of scaled vector is correct
        scale_factor = 2.
        check(
            test_vec * scale_factor, scale_factor ** 2,
            'Inner product of vector with itself is incorrect after scalar '
            'multiplication.')

        # Check that inner product of original vector hasn't changed due to
        # scalar multiplication.
        check(
            test_vec, 1,
            'Inner product of original test vector with itself has changed '
            'value after scalar multiplication.')

        # Check that the inner product of a summed vector is correct
        check(
            test_vec + test_vec, 4,
            'Inner product of vector with itself is incorrect after '
            'vector addition.')
'''),
]
