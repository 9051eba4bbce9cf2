# util: truncation helper, early exits, keyword dictionary
EDITS = [
('util.py', '''def svd(array, atol=1e-13, rtol=None):
''', '''def _num_kept(vals, atol, rtol):
    """Number of leading values that satisfy the tolerances"""
    mags = np.abs(vals)
    num = mags.size if atol is None else np.count_nonzero(mags > atol)
    if rtol is not None:
        num = min(num, np.count_nonzero(mags[:num] / mags[0] > rtol))
    return num


def svd(array, atol=1e-13, rtol=None):
'''),
('util.py', '''    # Figure out how many singular values satisfy the tolerances
    if atol is not None:
        num_nonzeros_atol = (abs(S) > atol).sum()
    else:
        num_nonzeros_atol = S.size
    if rtol is not None:
        num_nonzeros_rtol = (
            abs(S[:num_nonzeros_atol]) / abs(S[0]) > rtol).sum()
        num_nonzeros = min(num_nonzeros_atol, num_nonzeros_rtol)
    else:
        num_nonzeros = num_nonzeros_atol

    # Truncate arrays according to tolerances
    U = U[:, :num_nonzeros]
    V = V[:, :num_nonzeros]
    S = S[:num_nonzeros]

    return U, S, V
''', '''    # Truncate arrays according to tolerances
    num_nonzeros = _num_kept(S, atol, rtol)
    return U[:, :num_nonzeros], S[:num_nonzeros], V[:, :num_nonzeros]
'''),
('util.py', '''    sort_indices = np.argsort(np.abs(eigvals))[::-1]
    eigvals = eigvals[sort_indices]
    eigvecs = eigvecs[:, sort_indices]
''', '''    order = np.argsort(-abs(eigvals))
    eigvals, eigvecs = eigvals[order], eigvecs[:, order]
'''),
('util.py', '''    if atol is not None:
        num_nonzeros_atol = (abs(eigvals) > atol).sum()
    else:
        num_nonzeros_atol = eigvals.size
    if rtol is not None:
        num_nonzeros_rtol = (
            abs(eigvals[:num_nonzeros_atol]) / abs(eigvals[0]) > rtol).sum()
        num_nonzeros = min(num_nonzeros_atol, num_nonzeros_rtol)
    else:
        num_nonzeros = num_nonzeros_atol
    eigvals = eigvals[:num_nonzeros]
    eigvecs = eigvecs[:, :num_nonzeros]
    return eigvals, eigvecs
''', '''    keep = _num_kept(eigvals, atol, rtol)
    return eigvals[:keep], eigvecs[:, :keep]
'''),
('util.py', '''    if delimiter is None:
        np.savetxt(file_name, array.view(float))
    else:
        np.savetxt(file_name, array.view(float), delimiter=delimiter)
''', '''    kwargs = {} if delimiter is None else {'delimiter': delimiter}
    np.savetxt(file_name, array.view(float), **kwargs)
'''),
('util.py', '''        filtered_files = []
        for f in files:
            if f[-len(file_extension):] == file_extension:
                filtered_files.append(f)
        return filtered_files
''', '''        return [f for f in files if f[-len(file_extension):] == file_extension]
'''),
('util.py', '''    assert len(list1) == len(list2)
    return [list1[i] + list2[i] for i in range(len(list1))]
''', '''    assert len(list1) == len(list2)
    return [elem1 + elem2 for elem1, elem2 in zip(list1, list2)]
'''),
('util.py', '''    # Now allocate array and read all of the signals
    all_signals = np.zeros((num_signal_paths, num_time_values, num_signals))

    # Set the signals we already loaded
    all_signals[0] = signals

    # Load all remaining files
    for path_num, signal_path in enumerate(signal_paths):
        time_values_read, signals = load_signals(signal_path,
            delimiter=delimiter)
        if signals.shape != all_signals[0].shape:
''', '''    # Now allocate array and read all of the signals
    all_signals = np.zeros((num_signal_paths, num_time_values, num_signals))
    all_signals[0] = signals

    # Load all remaining files
    for path_num in range(1, num_signal_paths):
        signal_path = signal_paths[path_num]
        time_values_read, signals = load_signals(signal_path,
            delimiter=delimiter)
        if signals.shape != (num_time_values, num_signals):
'''),
]
