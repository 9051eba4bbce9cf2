# simulation helpers: tuple systems, transpose, local names
EDITS = [
('util.py', '''    ss = scipy.signal.StateSpace(A, B, C,
                                 np.zeros((C.shape[0], B.shape[1])), dt=1)
    tout_dum, outputs, xout_dum = scipy.signal.dlsim(
        ss, inputs, x0=initial_condition)
    return outputs
''', '''    num_outputs, num_inputs = C.shape[0], B.shape[1]
    D = np.zeros((num_outputs, num_inputs))
    return scipy.signal.dlsim(
        (A, B, C, D, 1), inputs, x0=initial_condition)[1]
'''),
('util.py', '''    if num_time_steps is not None:
        dum, Markovs = scipy.signal.dimpulse(ss, n=num_time_steps+1)
    else:
        dum, Markovs = scipy.signal.dimpulse(ss)
    # Remove the first element, which is 0, since we define C*B as first output
    # of impulse response, i.e., x(0) == B.
    Markovs = np.array(Markovs).swapaxes(0, 1).swapaxes(1, 2)[1:]
    return Markovs
''', '''    if num_time_steps is None:
        responses = scipy.signal.dimpulse(ss)[1]
    else:
        responses = scipy.signal.dimpulse(ss, n=1 + num_time_steps)[1]
    # Remove the first element, which is 0, since we define C*B as first output
    # of impulse response, i.e., x(0) == B.
    return np.transpose(np.array(responses), (1, 2, 0))[1:]
'''),
('util.py', '''    eig_vals = np.linspace(.2, .95, num_states)
    eig_vecs = np.random.normal(0, 2., (num_states, num_states))
    A = np.real(
        np.linalg.inv(eig_vecs).dot(np.diag(eig_vals).dot(eig_vecs)))
''', '''    vals = np.diag(np.linspace(.2, .95, num_states))
    vecs = np.random.normal(0, 2., (num_states, num_states))
    A = np.linalg.inv(vecs).dot(vals).dot(vecs).real
'''),
('util.py', '''    e_vals = -np.random.random(num_states)
    transformation = np.random.random((num_states, num_states))
    A = np.linalg.inv(transformation).dot(np.diag(e_vals)).dot(transformation)
''', '''    e_vals = -1. * np.random.random(size=(num_states,))
    transformation = np.random.random((num_states, num_states))
    A = np.linalg.solve(
        transformation, np.dot(np.diag(e_vals), transformation))
'''),
('util.py', '''    unique_vals = np.concatenate((first_col, last_row[1:]))
    a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
    indices = a + b
    return unique_vals[indices]
''', '''    vals = np.append(first_col, last_row[1:])
    rows = np.arange(first_col.size)
    cols = np.arange(last_row.size)
    return vals[rows[:, np.newaxis] + cols[np.newaxis, :]]
'''),
]
