# more rows than columns: recursion on the transposed problem
EDITS = [
('vectorspace.py', '''        if num_rows > num_cols:
            transpose = True
            tmp = row_vec_handles
            row_vec_handles = col_vec_handles
            col_vec_handles = tmp
            tmp = num_rows
            num_rows = num_cols
            num_cols = tmp
        else:
            transpose = False
''', '''        if num_rows > num_cols:
            return self.compute_inner_product_array(
                col_vec_handles, row_vec_handles).conj().T
'''),
('vectorspace.py', '''        if transpose:
            IP_array = IP_array.conj().T

''', ''''''),
]
