EDITS = [
('util.py', '''    # Now allocate array and read all of the signals
    all_signals = np.zeros((num_signal_paths, num_time_values, num_signals))

    # Set the signals we already loaded
    all_signals[0] = signals

    # Load all remaining files
    for path_num, signal_path in enumerate(signal_paths):
        time_values_read, signals = load_signals(signal_path,
            delimiter=delimiter)
        if signals.shape != all_signals[0].shape:
''', '''    first_shape = signals.shape
    all_signals = []

    # Load all files
    for signal_path in signal_paths:
        time_values_read, signals = load_signals(signal_path, delimiter)
        if signals.shape != first_shape:
'''),
('util.py', '''        all_signals[path_num] = signals

    return time_values, all_signals
''', '''        all_signals.append(signals)

    return time_values, np.array(all_signals)
'''),
('util.py', '''    unique_vals = np.concatenate((first_col, last_row[1:]))
    a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
    indices = a + b
    return unique_vals[indices]
''', '''    unique_vals = np.concatenate((first_col, last_row[1:]))
    indices = np.add.outer(
        np.arange(len(first_col)), np.arange(len(last_row)))
    return unique_vals[indices]
'''),
('util.py', '''    return np.vstack([np.hstack(
        np.array(unique_chunks[idx:idx + len(last_row_chunks)]))
        for idx in range(len(first_col_chunks))])''', '''    num_cols = len(last_row_chunks)
    rows = []
    for idx in range(len(first_col_chunks)):
        rows.append(np.hstack(unique_chunks[idx:idx + num_cols]))
    return np.vstack(rows)'''),
('util.py', '''    Uc, Ec, Vc = svd(gram_cont)
    Uo, Eo, Vo = svd(gram_obsv)
    Lc = Uc.dot(np.diag(Ec**0.5))
    Lo = Uo.dot(np.diag(Eo**0.5))
    U, E, V = svd(Lo.transpose().conj().dot(Lc))
    if order is None:
        order = len(E)
    SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
    SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
''', '''    Lc, Lo = [
        left * vals ** 0.5 for left, vals, _ in map(svd, (gram_cont, gram_obsv))]
    U, E, V = svd(Lo.conj().T.dot(Lc))
    if order is None:
        order = E.size
    scaling = 1. / np.sqrt(E[:order])
    SL = Lo.dot(U[:, :order]) * scaling
    SR = Lc.dot(V[:, :order]) * scaling
'''),
('util.py', '''    if scale_choice.lower() == 'left':
        L_evecs /= scale_factors.conj()
    elif scale_choice.lower() == 'right':
        R_evecs /= scale_factors
    else:
        raise ValueError('Invalid scale choice.  Must be LEFT or RIGHT.')

    return evals, R_evecs, L_evecs
''', '''    choice = scale_choice.lower()
    if choice not in ('left', 'right'):
        raise ValueError('Invalid scale choice.  Must be LEFT or RIGHT.')
    if choice == 'left':
        L_evecs = L_evecs / np.conj(scale_factors)
    else:
        R_evecs = R_evecs / scale_factors
    return evals, R_evecs, L_evecs
'''),
('util.py', '''    if array.ndim < 2:
        return np.atleast_2d(array).T
    else:
        return array
''', '''    if array.ndim >= 2:
        return array
    return array.reshape((-1, 1))
'''),
]
