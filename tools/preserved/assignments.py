# find_assignments rewritten
EDITS = [
('parallel.py', '''        # amount of work to do, float (scaled by weights)
        work_remaining = sum(task_weights[first_unassigned_index:])

        # Number of MPI workers whose jobs have not yet been assigned
        num_remaining_workers = _num_MPI_workers - worker_num

        # Distribute work load evenly across workers
        work_per_worker = (1. * work_remaining) / num_remaining_workers

        # If task list is not empty, compute assignments
        if task_weights[first_unassigned_index:].size != 0:
            # Index of tasks element which has sum(tasks[:ind])
            # closest to work_per_worker
            new_max_task_index = np.abs(np.cumsum(
                task_weights[first_unassigned_index:]) -\\
                work_per_worker).argmin() + first_unassigned_index
            # The last worker takes everything that is left, also tasks whose
            # weights are too small to change the sum
            if num_remaining_workers == 1:
                new_max_task_index = len(task_weights) - 1
            # Append all tasks up to and including new_max_task_index
            task_assignments.append(tasks[first_unassigned_index:\\
                new_max_task_index+1])
            first_unassigned_index = new_max_task_index+1
        else:
            task_assignments.append([])
''', '''        remaining_weights = task_weights[first_unassigned_index:]
        if remaining_weights.size == 0:
            task_assignments.append([])
            continue
        num_remaining_workers = _num_MPI_workers - worker_num
        if num_remaining_workers == 1:
            stop = len(task_weights)
        else:
            work_per_worker = sum(remaining_weights) / num_remaining_workers
            stop = first_unassigned_index + 1 + np.argmin(
                np.abs(np.cumsum(remaining_weights) - work_per_worker))
        task_assignments.append(tasks[first_unassigned_index:stop])
        first_unassigned_index = stop
'''),
('parallel.py', '''    empty_tasks = False
    for assignment in task_assignments:
        if len(assignment) == 0 and not empty_tasks:
            empty_tasks = True
    return empty_tasks
''', '''    return any(len(assignment) == 0 for assignment in task_assignments)
'''),
('parallel.py', '''    if is_rank_zero():
        outputs = func(*args, **kwargs)
    else:
        outputs = None
    if _is_distributed:
        outputs = comm.bcast(outputs, root=0)
    return outputs
''', '''    return bcast(call_from_rank_zero(func, *args, **kwargs))
'''),
]
