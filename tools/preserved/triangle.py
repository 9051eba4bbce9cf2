# symmetric inner products: triangle without the special diagonal
EDITS = [
('vectorspace.py', '''                for row_index in range(proc_row_tasks[0],
                    proc_row_tasks[-1] + 1):
                    # Diagonal term
                    IP_array[row_index, row_index] = self.inner_product(
                        row_vecs[row_index - proc_row_tasks[0]],
                        row_vecs[row_index - proc_row_tasks[0]])

                    # Off-diagonal terms
                    for col_index in range(
                        row_index + 1, proc_row_tasks[-1] + 1):
                        IP_array[row_index, col_index] = self.inner_product(
                            row_vecs[row_index - proc_row_tasks[0]],
                            row_vecs[col_index - proc_row_tasks[0]])
''', '''                first_task = proc_row_tasks[0]
                for i in range(len(row_vecs)):
                    for j in range(i, len(row_vecs)):
                        IP_array[
                            first_task + i, first_task + j
                        ] = self.inner_product(row_vecs[i], row_vecs[j])
'''),
('vectorspace.py', '''            num_active_procs = len([
                task for task in proc_row_tasks_all if task != []])
''', '''            num_active_procs = sum(
                1 for tasks in proc_row_tasks_all if len(tasks) > 0)
'''),
('vectorspace.py', '''            for set_index in range(int(np.ceil((num_active_procs - 1.) / 2))):
''', '''            for set_index in range(num_active_procs // 2):
'''),
('vectorspace.py', '''        mask = np.multiply(IP_array == 0., IP_array.conj().T != 0)

        # Collect values below diagonal
        IP_array += np.multiply(np.triu(IP_array.conj().T, 1), mask)

        # Symmetrize array
        IP_array = np.triu(IP_array) + np.triu(IP_array, 1).conj().T
''', '''        adjoint = IP_array.conj().T
        mask = (IP_array == 0.) & (adjoint != 0)
        IP_array = IP_array + np.triu(adjoint, 1) * mask
        upper = np.triu(IP_array, 1)
        IP_array = np.triu(IP_array) + upper.conj().T
'''),
]
