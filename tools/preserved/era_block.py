# ERA: Hankel arrays stacked from rows of chunks
EDITS = [
('era.py', '''        dtype = np.result_type(self.Markovs, float)
        self.Hankel_array = np.zeros(
            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
            dtype=dtype)
        self.Hankel_array2 = np.zeros(self.Hankel_array.shape, dtype=dtype)
''', '''        Markovs = self.Markovs.astype(np.result_type(self.Markovs, float))
        self.Hankel_array = np.vstack([
            np.hstack([Markovs[2 * (row + col)] for col in range(self.mc)])
            for row in range(self.mo)])
        self.Hankel_array2 = np.vstack([
            np.hstack([Markovs[2 * (row + col) + 1] for col in range(self.mc)])
            for row in range(self.mo)])
'''),
('era.py', '''        for row in range(self.mo):
            row_start = row * self.num_Markovs
            row_end = row_start + self.num_Markovs
            for col in range(self.mc):
                col_start = col * self.num_inputs
                col_end = col_start + self.num_inputs
                self.Hankel_array[
                    row_start:row_end, col_start:col_end] = self.Markovs[
                        2 * (row + col)]
                self.Hankel_array2[
                    row_start:row_end, col_start:col_end] = self.Markovs[
                        2 * (row + col) + 1]
''', ''),
]
