# ERA: one loop over chunks, scaling by broadcasting
EDITS = [
('era.py', '''        for row in range(self.mo):
            row_start = row * self.num_Markovs
            row_end = row_start + self.num_Markovs
            for col in range(self.mc):
                col_start = col * self.num_inputs
                col_end = col_start + self.num_inputs
                self.Hankel_array[
                    row_start:row_end, col_start:col_end] = self.Markovs[
                        2 * (row + col)]
                self.Hankel_array2[
                    row_start:row_end, col_start:col_end] = self.Markovs[
                        2 * (row + col) + 1]
''', '''        for col in range(self.mc):
            cols = slice(col * self.num_inputs, (col + 1) * self.num_inputs)
            for row in range(self.mo):
                rows = slice(
                    row * self.num_Markovs, (row + 1) * self.num_Markovs)
                sample = 2 * (row + col)
                self.Hankel_array[rows, cols] = self.Markovs[sample]
                self.Hankel_array2[rows, cols] = self.Markovs[sample + 1]
'''),
('era.py', '''        self.A = np.diag(Er ** -0.5).dot(
            Ur.conj().T.dot(
                self.Hankel_array2.dot(
                    Vr.dot(
                        np.diag(Er ** -0.5)))))
        self.B = np.diag(Er ** 0.5).dot((Vr.conj().T)[:, :self.num_inputs])
        # *dt above is removed, users must do this themselves.
        # It is explained in the docs.

        self.C = Ur[:self.num_Markovs].dot(np.diag(Er ** 0.5))
''', '''        root = np.diag(np.sqrt(Er))
        inv_root = np.diag(1. / np.sqrt(Er))
        observability = Ur.dot(root)
        self.C = observability[:self.num_Markovs]
        controllability = root.dot(Vr.conj().T)
        self.B = controllability[:, :self.num_inputs]
        self.A = inv_root.dot(Ur.conj().T).dot(self.Hankel_array2).dot(
            Vr).dot(inv_root)
'''),
('era.py', '''        self.num_time_steps, self.num_Markovs, self.num_inputs =\\
            self.Markovs.shape

        # Must have an even number of time steps, remove last entry if odd.
        if self.num_time_steps % 2 != 0:
            self.num_time_steps -= 1
            self.Markovs = self.Markovs[:-1]
''', '''        # Must have an even number of time steps, remove last entry if odd.
        if len(self.Markovs) % 2:
            self.Markovs = self.Markovs[:-1]
        self.num_time_steps, self.num_Markovs, self.num_inputs =\\
            self.Markovs.shape
'''),
('era.py', '''    Markovs_corr[::2] = Markovs[:-1]
    Markovs_corr[1::2] = Markovs[1:]
    time_steps_corr[::2] = time_steps[:-1]
    time_steps_corr[1::2] = time_steps[1:]
    return time_steps_corr, Markovs_corr
''', '''    for parity in (0, 1):
        stop = num_time_steps - 1 + parity
        Markovs_corr[parity::2] = Markovs[parity:stop]
        time_steps_corr[parity::2] = time_steps[parity:stop]
    return time_steps_corr, Markovs_corr
'''),
]
