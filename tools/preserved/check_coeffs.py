# coefficient checks in a helper
EDITS = [
('vectorspace.py', '''        # Force coefficients to be array
        coeff_array = np.array(coeff_array)

        # Check for 1d coefficient arrays
        if coeff_array.ndim < 2:

            # If there is only one basis vector, then force the coefficient
            # array to be a row vector.
            if num_bases == 1:
                coeff_array = util.atleast_2d_row(coeff_array)

            # Otherwise, force it to be a column vector.
            else:
                coeff_array = util.atleast_2d_col(coeff_array)

        # Slice coeff array.  If only one column of the array is chosen, slicing
        # will produce a 1d array, which we do not want for matrix
        # multiplication.  So use atleast_2d_col method to force it to be a
        # column vector.
        if coeff_array_col_indices is not None:
            coeff_array = util.atleast_2d_col(
                coeff_array[:, coeff_array_col_indices])

        # Check dimensions of coeff array
        if num_bases != coeff_array.shape[0]:
            raise ValueError((
                'Number of coeff_array rows (%d) does not equal number of '
                'basis handles (%d)') % (coeff_array.shape[0], num_bases))
        if num_sums != coeff_array.shape[1]:
            raise ValueError((
                'Number of coeff_array cols (%d) does not equal number of '
                'output handles (%d)') % (coeff_array.shape[1], num_sums))
''', '''        coeff_array = self._prepare_coeffs(
            coeff_array, coeff_array_col_indices, num_bases, num_sums)
'''),
('vectorspace.py', '''    def lin_combine(
        self, sum_vec_handles, basis''', '''    @staticmethod
    def _prepare_coeffs(coeffs, col_indices, num_bases, num_sums):
        coeffs = np.array(coeffs)
        if coeffs.ndim < 2:
            to_2d = (
                util.atleast_2d_row if num_bases == 1 else util.atleast_2d_col)
            coeffs = to_2d(coeffs)
        if col_indices is not None:
            coeffs = util.atleast_2d_col(coeffs[:, col_indices])
        num_coeff_rows, num_coeff_cols = coeffs.shape
        if num_coeff_rows != num_bases:
            raise ValueError(
                'Number of coeff_array rows (%d) does not equal number of '
                'basis handles (%d)' % (num_coeff_rows, num_bases))
        if num_coeff_cols != num_sums:
            raise ValueError(
                'Number of coeff_array cols (%d) does not equal number of '
                'output handles (%d)' % (num_coeff_cols, num_sums))
        return coeffs


    def lin_combine(
        self, sum_vec_handles, basis'''),
]
