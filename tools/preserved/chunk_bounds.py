# the bounds of a chunk in a helper
EDITS = [
('vectorspace.py', '''class VectorSpaceArrays(object):''', '''def _chunk_bounds(tasks, chunk_index, chunk_size):
    """First and one-past-last task of a chunk"""
    if len(tasks) == 0:
        return 0, 0
    stop = tasks[-1] + 1
    first = min(tasks[0] + chunk_index * chunk_size, stop)
    return first, min(first + chunk_size, stop)


class VectorSpaceArrays(object):'''),
('vectorspace.py', '''            if len(row_tasks[rank]) > 0:
                start_row_index = min(
                    row_tasks[rank][0] + (
                        row_get_index * num_rows_per_proc_chunk),
                    row_tasks[rank][-1] + 1)
                end_row_index = min(
                    row_tasks[rank][-1] + 1,
                    start_row_index + num_rows_per_proc_chunk)
                row_vecs = [
                    row_vec_handle.get() for row_vec_handle in
                    row_vec_handles[start_row_index:end_row_index]]
            else:
                row_vecs = []
''', '''            start_row_index, end_row_index = _chunk_bounds(
                row_tasks[rank], row_get_index, num_rows_per_proc_chunk)
            row_vecs = [
                handle.get() for handle in
                row_vec_handles[start_row_index:end_row_index]]
'''),
('vectorspace.py', '''                if len(col_tasks[rank]) > 0:
                    start_col_index = min(
                        col_tasks[rank][0] + (
                            col_get_index * num_cols_per_proc_chunk),
                        col_tasks[rank][-1] + 1)
                    end_col_index = min(
                        col_tasks[rank][-1] + 1,
                        start_col_index + num_cols_per_proc_chunk)
                else:
                    start_col_index = 0
                    end_col_index = 0

                # Cycle''', '''                start_col_index, end_col_index = _chunk_bounds(
                    col_tasks[rank], col_get_index, num_cols_per_proc_chunk)

                # Cycle'''),
('vectorspace.py', '''            if len(sum_tasks[rank]) > 0:
                start_sum_index = min(
                    sum_tasks[rank][0] + (
                        sum_put_index * num_sums_per_proc_chunk),
                    sum_tasks[rank][-1] + 1)
                end_sum_index = min(
                    start_sum_index + num_sums_per_proc_chunk,
                    sum_tasks[rank][-1] + 1)

                # Create empty list on each processor
                sum_layers = [None] * (end_sum_index - start_sum_index)
            else:
                start_sum_index = 0
                end_sum_index = 0
                sum_layers = []
''', '''            start_sum_index, end_sum_index = _chunk_bounds(
                sum_tasks[rank], sum_put_index, num_sums_per_proc_chunk)
            # Create empty list on each processor
            sum_layers = [None] * (end_sum_index - start_sum_index)
'''),
('vectorspace.py', '''                if len(basis_tasks[rank]) > 0:
                    start_basis_index = min(
                        basis_tasks[rank][0] +(
                            basis_get_index*num_bases_per_proc_chunk),
                        basis_tasks[rank][-1] + 1)
                    end_basis_index = min(
                        start_basis_index + num_bases_per_proc_chunk,
                        basis_tasks[rank][-1] + 1)
                    basis_indices = list(range(
                        start_basis_index, end_basis_index))
                else:
                    basis_indices = []
''', '''                basis_indices = list(range(*_chunk_bounds(
                    basis_tasks[rank], basis_get_index,
                    num_bases_per_proc_chunk)))
'''),
]
