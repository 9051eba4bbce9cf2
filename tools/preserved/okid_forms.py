# OKID: sums with generators, slices computed first
EDITS = [
('okid.py', '''    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
    for i in range(1, num_Markovs + 1):
        V[num_inputs + (i - 1) * num_inouts:num_inputs + i * num_inouts, i:] =\\
            inputs_outputs[:, :num_samples - i]
''', '''    inputs_outputs = np.vstack((inputs, outputs))
    first_row = num_inputs
    for delay in range(1, num_Markovs + 1):
        last_row = first_row + num_inouts
        V[first_row:last_row, delay:] = inputs_outputs[:, :-delay]
        first_row = last_row
'''),
('okid.py', '''    for Markov_num in range(num_Markovs):
        Markov_aug_input.append(
            Markov_aug_noD[
                :,
                Markov_num * num_inouts:Markov_num * num_inouts + num_inputs])
        Markov_aug_output.append(
            -Markov_aug_noD[
                :,
                Markov_num * num_inouts + num_inputs:
                Markov_num * num_inouts + num_inouts])
''', '''    for Markov_num in range(num_Markovs):
        start = Markov_num * num_inouts
        block = Markov_aug_noD[:, start:start + num_inouts]
        Markov_aug_input.append(block[:, :num_inputs])
        Markov_aug_output.append(-block[:, num_inputs:])
'''),
('okid.py', '''        summation_term = np.zeros((num_outputs, num_inputs), dtype=dtype)
        for i in range(1, Markov_num + 1):
            summation_term += Markov_aug_output[i].dot(
                Markov_est[Markov_num- i , :, :])
        Markov_est[Markov_num] = (
            Markov_aug_input[Markov_num] - summation_term)
''', '''        Markov_est[Markov_num] = Markov_aug_input[Markov_num]
        for i in range(Markov_num):
            Markov_est[Markov_num] -= np.dot(
                Markov_aug_output[Markov_num - i], Markov_est[i])
'''),
]
