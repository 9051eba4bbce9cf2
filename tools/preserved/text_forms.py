# util text input and output: one options dictionary, conditional expressions
EDITS = [
('util.py', '''    if is_complex:
        dtype = complex
    else:
        dtype = float

    # Load data
    array = np.loadtxt(file_name, delimiter=delimiter, ndmin=2)
    if is_complex and array.shape[1] % 2 != 0:
        raise ValueError(
            ('Cannot load complex data, file %s has an odd number of columns. '
            'Maybe it has real data.') % file_name)

    # Cast as an array, copies to make it C-contiguous memory
    return np.array(array.view(dtype))
''', '''    # Load data
    array = np.loadtxt(file_name, delimiter=delimiter, ndmin=2)
    if not is_complex:
        return array.copy()
    num_cols = array.shape[1]
    if num_cols % 2:
        raise ValueError(
            ('Cannot load complex data, file %s has an odd number of columns. '
            'Maybe it has real data.') % file_name)
    # Columns alternate between real and imaginary parts
    return array[:, ::2] + 1j * array[:, 1::2]
'''),
('util.py', '''        filtered_files = []
        for f in files:
            if f[-len(file_extension):] == file_extension:
                filtered_files.append(f)
        return filtered_files
    else:
        return files
''', '''        files = [
            f for f in files if f[-len(file_extension):] == file_extension]
    return files
'''),
('util.py', '''    raw_data = load_array_text(signal_path, delimiter=delimiter)
    num_signals = raw_data.shape[1] - 1
    if num_signals == 0:
        raise ValueError('Data must have at least two columns')
    time_values = raw_data[:, 0]
    signals = raw_data[:, 1:]
    # Guarantee that signals is 2D
    if signals.ndim == 1:
        signals = signals.reshape((signals.shape[0], 1))
    return time_values, signals
''', '''    raw_data = load_array_text(signal_path, delimiter=delimiter)
    if raw_data.shape[1] < 2:
        raise ValueError('Data must have at least two columns')
    return raw_data[:, 0], raw_data[:, 1:]
'''),
('util.py', '''    assert len(list1) == len(list2)
    return [list1[i] + list2[i] for i in range(len(list1))]
''', '''    assert len(list1) == len(list2)
    return [x + y for x, y in zip(list1, list2)]
'''),
('util.py', '''    if isinstance(arg1, np.ndarray):
        if arg1.shape != arg2.shape:
            return False
        return (arg1 == arg2).all()
    return arg1 == arg2
''', '''    if not isinstance(arg1, np.ndarray):
        return arg1 == arg2
    return arg1.shape == arg2.shape and (arg1 == arg2).all()
'''),
]
