# swap rows and columns by tuple assignment, shape from len afterwards
EDITS = [
('vectorspace.py', '''        num_cols = len(col_vec_handles)
        num_rows = len(row_vec_handles)

        if num_rows > num_cols:
            transpose = True
            tmp = row_vec_handles
            row_vec_handles = col_vec_handles
            col_vec_handles = tmp
            tmp = num_rows
            num_rows = num_cols
            num_cols = tmp
        else:
            transpose = False
''', '''        transpose = len(row_vec_handles) > len(col_vec_handles)
        if transpose:
            row_vec_handles, col_vec_handles = (
                col_vec_handles, row_vec_handles)
        num_rows, num_cols = len(row_vec_handles), len(col_vec_handles)
'''),
]
