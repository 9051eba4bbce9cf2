# chunk counting by integer arithmetic in a module function
EDITS = [
('vectorspace.py', '''class VectorSpaceArrays(object):''', '''def _num_chunks(num_items, chunk_size):
    """Number of chunks of chunk_size that hold num_items"""
    return -(-num_items // chunk_size)


class VectorSpaceArrays(object):'''),
('vectorspace.py', '''        num_row_get_loops = \\
            int(np.ceil(max_num_row_tasks*1./num_rows_per_proc_chunk))
        num_col_get_loops = \\
            int(np.ceil(max_num_col_tasks*1./num_cols_per_proc_chunk))
''', '''        num_row_get_loops = _num_chunks(
            max_num_row_tasks, num_rows_per_proc_chunk)
        num_col_get_loops = _num_chunks(
            max_num_col_tasks, num_cols_per_proc_chunk)
'''),
('vectorspace.py', '''        num_basis_get_iters = int(np.ceil(
            max_num_basis_tasks*1./num_bases_per_proc_chunk))
        num_sum_put_iters = int(np.ceil(
            max_num_sum_tasks*1./num_sums_per_proc_chunk))
''', '''        num_basis_get_iters = _num_chunks(
            max_num_basis_tasks, num_bases_per_proc_chunk)
        num_sum_put_iters = _num_chunks(
            max_num_sum_tasks, num_sums_per_proc_chunk)
'''),
]
