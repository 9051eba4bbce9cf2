from edit_lib import func
U = 'util.py'
EDITS = [
func(U, 'eig_biorthog', '''
    def eig_biorthog(array, scale_choice='left'):
        """Left and right eigenvectors, scaled to be biorthonormal."""
        choice = scale_choice.lower()
        if choice not in ('left', 'right'):
            raise ValueError('Invalid scale choice.  Must be LEFT or RIGHT.')
        evals, L_evecs, R_evecs = scipy.linalg.eig(np.array(array), left=True, right=True)
        scale_factors = np.sum(L_evecs.conj() * R_evecs, axis=0)
        if choice == 'left':
            L_evecs = L_evecs / scale_factors.conj()
        else:
            R_evecs = R_evecs / scale_factors
        return evals, R_evecs, L_evecs
'''),
func(U, 'drss', '''
    def drss(num_states, num_inputs, num_outputs):
        """Generates a discrete-time random state-space system."""
        eig_vals = np.linspace(.2, .95, num_states)
        eig_vecs = np.random.normal(0, 2., (num_states, num_states))
        A = np.linalg.solve(eig_vecs, eig_vals[:, np.newaxis] * eig_vecs)
        B = np.random.normal(0, 1., (num_states, num_inputs))
        C = np.random.normal(0, 1., (num_outputs, num_states))
        return np.real(A), B, C
'''),
func(U, 'rss', '''
    def rss(num_states, num_inputs, num_outputs):
        """Generates a continuous-time random state-space system."""
        e_vals = -1. * np.random.random(num_states)
        T = np.random.random((num_states, num_states))
        T_inv = np.linalg.inv(T)
        shape_B, shape_C = (num_states, num_inputs), (num_outputs, num_states)
        return (
            T_inv @ np.diag(e_vals) @ T, np.random.random(shape_B),
            np.random.random(shape_C))
'''),
func(U, 'Hankel', '''
    def Hankel(first_col, last_row=None):
        """Construct a Hankel array, whose skew diagonals are constant."""
        first_col = np.ravel(np.array(first_col))
        num_rows = len(first_col)
        last_row = (
            np.zeros(num_rows) if last_row is None
            else np.ravel(np.array(last_row)))
        num_cols = len(last_row)
        values = np.hstack([first_col, last_row[1:]])
        indices = np.arange(num_rows)[:, np.newaxis] + np.arange(num_cols)
        return values[indices]
'''),
func(U, 'Hankel_chunks', '''
    def Hankel_chunks(first_col_chunks, last_row_chunks=None):
        """Construct a Hankel array from chunks."""
        num_rows = len(first_col_chunks)
        if last_row_chunks is None:
            zero_chunk = np.zeros(first_col_chunks[0].shape)
            last_row_chunks = [zero_chunk for i in range(num_rows)]
        num_cols = len(last_row_chunks)
        chunks = list(first_col_chunks) + list(last_row_chunks[1:])
        rows = []
        for i in range(num_rows):
            row = [chunks[i + j] for j in range(num_cols)]
            rows.append(np.concatenate(row, axis=1))
        return np.concatenate(rows, axis=0)
'''),
func(U, 'lsim', '''
    def lsim(A, B, C, inputs, initial_condition=None):
        """Simulates a discrete-time system with arbitrary inputs."""
        A, B, C = np.array(A), np.array(B), np.array(C)
        num_outputs, num_inputs = C.shape[0], B.shape[1]
        D = np.zeros((num_outputs, num_inputs))
        system = scipy.signal.StateSpace(A, B, C, D, dt=1)
        return scipy.signal.dlsim(system, inputs, x0=initial_condition)[1]
'''),
func(U, 'impulse', '''
    def impulse(A, B, C, num_time_steps=None):
        """Generates impulse response outputs for a discrete-time system."""
        system = scipy.signal.StateSpace(
            A, B, C, np.zeros((C.shape[0], B.shape[1])), dt=1)
        n = None if num_time_steps is None else num_time_steps + 1
        responses = scipy.signal.dimpulse(system, n=n)[1]
        # From [input, time, output] to [time, output, input]
        return np.transpose(np.array(responses), (1, 2, 0))[1:]
'''),
func(U, 'load_signals', '''
    def load_signals(signal_path, delimiter=None):
        """Loads signals from text files with columns [t signal1 signal2 ...]."""
        raw_data = load_array_text(signal_path, delimiter=delimiter)
        if raw_data.shape[1] < 2:
            raise ValueError('Data must have at least two columns')
        return raw_data[:, 0], np.reshape(
            raw_data[:, 1:], (raw_data.shape[0], raw_data.shape[1] - 1))
'''),
]
