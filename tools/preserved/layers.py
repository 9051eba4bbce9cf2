# layer accumulation rewritten
EDITS = [
('vectorspace.py', '''                    for sum_index in range(start_sum_index, end_sum_index):
                        for basis_index, basis_vec in enumerate(basis_vecs):
                            sum_layer = basis_vec * coeff_array[
                                    basis_indices[basis_index], sum_index]
                            if sum_layers[sum_index - start_sum_index] is None:
                                sum_layers[
                                    sum_index-start_sum_index] = sum_layer
                            else:
                                sum_layers[
                                    sum_index - start_sum_index] += sum_layer
''', '''                    for sum_index in range(start_sum_index, end_sum_index):
                        layer_index = sum_index - start_sum_index
                        for basis_index, basis_vec in zip(
                            basis_indices, basis_vecs):
                            coeff = coeff_array[basis_index, sum_index]
                            if sum_layers[layer_index] is None:
                                sum_layers[layer_index] = basis_vec * coeff
                            else:
                                sum_layers[layer_index] = (
                                    sum_layers[layer_index] +
                                    basis_vec * coeff)
'''),
('vectorspace.py', '''            for sum_index in range(start_sum_index, end_sum_index):
                sum_vec_handles[sum_index].put(
                    sum_layers[sum_index - start_sum_index])
''', '''            for handle, layer in zip(
                sum_vec_handles[start_sum_index:end_sum_index], sum_layers):
                handle.put(layer)
'''),
]
