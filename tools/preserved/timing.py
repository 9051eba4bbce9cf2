# timing helper, progress helper
EDITS = [
('vectorspace.py', '''    def sanity_check(self, test_vec_handle):''', '''    @staticmethod
    def _timed(func, *args):
        """Calls func, returns the result and the elapsed time"""
        start = time()
        result = func(*args)
        return result, time() - start


    def _report_progress(self, fmt, compute_percent):
        """Print a progress message, at most every print_interval seconds"""
        if (time() - self.prev_print_time) > self.print_interval:
            self.print_msg(fmt % compute_percent(), output_channel='stderr')
            self.prev_print_time = time()


    def sanity_check(self, test_vec_handle):'''),
('vectorspace.py', '''        start_time = time()
        row_vec = row_vec_handles[0].get()
        get_time = time() - start_time

        # Time the inner product method and get inner product type (real or
        # complex)
        start_time = time()
        IP = self.inner_product(row_vec, col_vec)
        IP_time = time() - start_time
        IP_type = type(IP)
''', '''        row_vec, get_time = self._timed(row_vec_handles[0].get)

        # Time the inner product method and get inner product type (real or
        # complex)
        IP, IP_time = self._timed(self.inner_product, row_vec, col_vec)
        IP_type = type(IP)
'''),
('vectorspace.py', '''                        if (
                            (time() - self.prev_print_time) >
                            self.print_interval):
                            num_completed_IPs = (np.abs(IP_array) > 0.).sum()
                            percent_completed_IPs = (
                                num_completed_IPs *
                                parallel.get_num_MPI_workers() /
                                (num_cols * num_rows)) * 100.
                            self.print_msg(
                                'Completed %.1f%% of inner products' %
                                percent_completed_IPs,
                                output_channel='stderr')
                            self.prev_print_time = time()

                # Clear''', '''                        self._report_progress(
                            'Completed %.1f%% of inner products',
                            lambda: (
                                (np.abs(IP_array) > 0.).sum() *
                                parallel.get_num_MPI_workers() /
                                (num_cols * num_rows)) * 100.)

                # Clear'''),
('vectorspace.py', '''                        if (
                            (time() - self.prev_print_time) >
                            self.print_interval):
                            self.print_msg(
                                'Completed %.1f%% of linear combinations' %
                                (sum_index * 100. / len(sum_tasks[rank])),
                                output_channel='stderr')
                            self.prev_print_time = time()
''', '''                        self._report_progress(
                            'Completed %.1f%% of linear combinations',
                            lambda: sum_index * 100. / len(sum_tasks[rank]))
'''),
]
