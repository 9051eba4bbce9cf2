# parallel: early returns, shared helper, reversed tests
EDITS = [
('parallel.py', '''    if is_rank_zero():
        out = func(*args, **kwargs)
    else:
        out = None
    return out
''', '''    if not is_rank_zero():
        return None
    return func(*args, **kwargs)
'''),
('parallel.py', '''    if is_rank_zero():
        outputs = vals
    else:
        outputs = None
    if _is_distributed:
        outputs = comm.bcast(outputs, root=0)
    return outputs


def call_and_bcast''', '''    root_vals = vals if is_rank_zero() else None
    return comm.bcast(root_vals, root=0) if is_distributed() else root_vals


def call_and_bcast'''),
('parallel.py', '''    if is_rank_zero():
        outputs = func(*args, **kwargs)
    else:
        outputs = None
    if _is_distributed:
        outputs = comm.bcast(outputs, root=0)
    return outputs


def find_assignments''', '''    return bcast(call_from_rank_zero(func, *args, **kwargs))


def find_assignments'''),
('parallel.py', '''    if _is_distributed:
        comm.Barrier()
''', '''    if not _is_distributed:
        return
    comm.Barrier()
'''),
('parallel.py', '''    if is_rank_zero():
        print_msg(str(msg), output_channel=output_channel)
''', '''    if get_rank() != 0:
        return
    print_msg(str(msg), output_channel=output_channel)
'''),
('parallel.py', '''def get_num_procs():
    """Returns number of processors (currently same as number of MPI
    workers)."""
    return get_num_MPI_workers()
''', '''def get_num_procs():
    """Returns number of processors (currently same as number of MPI
    workers)."""
    num_procs = _num_MPI_workers
    return num_procs
'''),
]
