#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
V = 'modred/vectorspace.py'; PA = 'modred/parallel.py'; U = 'modred/util.py'
POD = 'modred/pod.py'; BPOD = 'modred/bpod.py'; DMD = 'modred/dmd.py'; ERA = 'modred/era.py'
OK = 'modred/okid.py'; LTI = 'modred/ltigalerkinproj.py'; VE = 'modred/vectors.py'; RED = 'modred/reductions.py'
P2 = 'modred/py2to3.py'
OUT = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    OUT.append({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

# ------------------------------------------------------------------ parallel
p('P01', 'Every process reaches the same collective operations in the same order',
  'In a distributed run, every process executes the same sequence of barriers, broadcasts and reductions, whatever its rank, its share of the work, or the time it takes. No collective is skipped, added or repeated on only some of the processes, so no call of the library can deadlock when all processes make it.',
  ['schedules', 'configurations', 'inputs'], 'every number of processes and nodes, every number of vectors (including fewer vectors than processes), every memory limit, every timing',
  'The suite runs with 1 and 3 processes on one node and a few vector counts; whether a collective is control-dependent on the rank or on the clock is a property of all paths.',
  [V, PA, POD, BPOD, DMD, LTI], [('barrier/bcast/call_and_bcast wrappers', PA), ('collectives placed outside rank- and time-dependent control', V)],
  ['program returns on every rank'])
p('P02', 'Every point-to-point message is received by the process it was meant for',
  'Whenever the processes exchange vectors, each message sent has exactly one matching receive: the partner, the direction and the tag computed by the sender and by the receiver agree for every rank and process count, and the send is completed before its result is relied upon. Vectors and the indices that label them travel together and are unpacked in the order they were packed.',
  ['schedules', 'configurations'], 'every rank, every process count, every ring distance, every message interleaving',
  'Tests use 3 processes, where many wrong partner/tag formulas coincide; a mismatch shows as a hang or as mislabelled vectors only at other counts.',
  [V, RED], [('ring exchange: isend/recv/Wait with mirrored partner and tag expressions', V)])
p('P03', 'Saved arrays are written once, by rank zero, before anyone proceeds',
  'Every operation that saves a computed array calls the user\'s writer exactly once per array, on rank zero only, and no process returns from the operation before the write has completed. A distributed run therefore leaves the same files as a serial run, and any process can read them right after the call.',
  ['schedules', 'configurations'], 'every save operation of every decomposition and projection class, every process count, every interleaving',
  'A missing synchronisation is a race: on a local file system the reader nearly always loses it only under load; the suite only samples one interleaving.',
  [POD, BPOD, DMD, LTI, PA], [('rank-zero guard around put_array followed by parallel.barrier', POD), ('call_from_rank_zero + barrier', LTI)])
p('P04', 'All processes hold the same decomposition',
  'After any decomposition or array-loading call, every process holds identical arrays: quantities that are only determined up to a phase or ordering (eigenvectors, singular vectors) are computed once and distributed, stored arrays are read once and distributed, and arrays assembled from per-process pieces are reduced over all processes before anyone uses them.',
  ['schedules', 'configurations', 'inputs'], 'every process count, every platform-dependent choice of eigenvector phase',
  'On one homogeneous machine each process computes the same eigenvectors by luck, so the tests pass even when the broadcast is gone.',
  [POD, BPOD, DMD, V, PA], [('parallel.call_and_bcast around factorisations and get_array', POD), ('custom_comm.allreduce of IP_array', V)])
p('P05', 'A single process needs no MPI',
  'With one process, or with no MPI library installed, every operation works and never touches a communicator.',
  ['configurations'], 'installations without mpi4py; single-process runs of every operation',
  'The test environment always has mpi4py, so code that touches the communicator object in a serial run still passes.',
  [PA, V, RED], [('_MPI_avail / _is_distributed guards', PA)])
p('P06', 'Work division assigns every task exactly once',
  'Dividing a list of tasks over the processes yields one list per process whose concatenation is the original list: each task is assigned exactly once and in order, for any number of tasks, any number of processes and any non-negative task weights.',
  ['inputs', 'configurations'], 'every task list, every weight vector including zeros and widely varying magnitudes, every process count',
  'The existing test checks a couple of weight vectors for one process count; dropped tasks need particular weights.',
  [PA], [('find_assignments', PA)])
p('P07', 'Every inner product array entry pairs the right two vectors',
  'Entry (i, j) of an inner product array computed from handles is the inner product of row vector i (first argument) with column vector j (second argument), for any numbers of rows and columns, processes and any memory limit; every entry is filled, and filled once across the processes.',
  ['inputs', 'configurations'], 'all row/column counts (more rows than columns and the reverse), process counts, memory limits, complex inner products',
  'Chunk boundaries, ring passes and the swapped orientation interact; tests sample a few sizes with ample memory.',
  [V], [('tiled loops with index bookkeeping in compute_inner_product_array', V)])
p('P08', 'The symmetric inner product array is the full Hermitian array of its vectors',
  'The array computed for one set of vectors has entry (i, j) equal to the inner product of vector i with vector j for all i and j: its lower triangle is the conjugate of its upper triangle, its diagonal holds each vector\'s own inner product, and no pair is omitted or counted twice, for any number of vectors, processes and any memory limit.',
  ['inputs', 'configurations'], 'all vector counts, process counts (odd and even), memory limits, complex inner products',
  'The exchange pattern depends on the number of active processes, and completion of the lower triangle differs between even and odd counts; the suite runs 1 and 3 only.',
  [V], [('compute_symm_inner_product_array and its triangle completion', V)])
p('P09', 'Linear combinations sum every basis vector with its own coefficient',
  'Each output vector j is the sum over all basis vectors i of basis vector i times coefficient (i, j) of the selected columns; each output handle receives exactly one vector, exactly once, for any numbers of bases, outputs, processes and any memory limit.',
  ['inputs', 'configurations'], 'all basis/output counts, process counts, memory limits, column selections, 1D coefficients',
  'Mistakes need several chunks per process or fewer outputs than processes to show.',
  [V], [('lin_combine tiling', V)])
p('P10', 'No process holds more vectors in memory than the limit',
  'The number of vectors a process keeps in memory at once never exceeds the per-process limit derived from the user\'s per-node limit (apart from the one vector in flight during an exchange and the temporaries of a vector operation), and the limit is never taken below what the algorithms need to make progress.',
  ['inputs', 'configurations'], 'all vector counts and memory limits',
  'Nothing in the tests measures how many vectors are alive; holding more gives the same numbers.',
  [V], [('chunk sizes derived from max_vecs_per_proc', V)])
p('P11', 'Whole-array functions refuse to run distributed',
  'Every function or class that works on whole in-memory arrays and is documented as serial raises an error as soon as it is used in a distributed run, before doing any work, rather than computing redundantly or incorrectly.',
  ['configurations'], 'every serial-only entry point, every process count above one',
  'The array tests are skipped in parallel runs, so nothing exercises the refusal.',
  [POD, BPOD, DMD, LTI], [('parallel.is_distributed() guard raising RuntimeError', POD)])
p('P12', 'The custom reductions equal the reduction over all processes',
  'A reduction over the processes combines each process\'s contribution exactly once, in rank order, for any process count (powers of two or not) and any root; every process obtains the result of an all-reduction. The operations provided for reductions add lists and arrays element by element.',
  ['configurations', 'schedules'], 'every process count and root',
  'The reduction tests are not part of the suite that runs; 3 processes cover one shape of the tree.',
  [RED], [('binomial tree in reduce, bcast in allreduce', RED)])
p('P13', 'Rank-zero helpers call once and return the result everywhere',
  'The helpers that run a function on rank zero call it exactly once with exactly the arguments given and only there; the broadcasting variants return rank zero\'s value on every process, the non-broadcasting one returns nothing on the other processes.',
  ['configurations', 'inputs'], 'every function, positional and keyword arguments, every process count',
  'Tests use one function with one argument pattern.',
  [PA], [('call_from_rank_zero, call_and_bcast, bcast', PA)])
p('P14', 'Processes and nodes are counted as they are',
  'On every process the reported rank, number of processes and distributed flag are those of the communicator (rank zero and one process without MPI), exactly one process is rank zero, and the number of nodes is the number of different hosts the processes run on, the same on every process.',
  ['configurations'], 'every process count and distribution of processes over nodes',
  'Tests run on one node with one process (or three), where wrong counts of nodes and processes coincide with right ones.',
  [PA], [('get_rank, get_num_procs, is_distributed, get_num_nodes, get_node_ID', PA)])

# ------------------------------------------------------------------ numerics
p('N01', 'POD modes, eigenvalues and coefficients satisfy the definition of POD',
  'Each way of computing POD (method of snapshots, direct method, handle-based) returns, for data X and inner-product weight W, the eigenvalues and eigenvectors of X*WX, modes X times eigenvectors over the square root of eigenvalues, and projection coefficients equal to the modes\' inner products with the data; all ways agree. This holds for real and complex data and any weights.',
  ['inputs'], 'all real and complex data, all weights (none, 1D, Hermitian 2D)',
  'Random real samples cannot distinguish transposes from conjugate transposes or a wrong exponent that cancels; several array tests do not even run.',
  [POD, V, U], [('compute_POD_arrays_snaps_method', POD), ('compute_POD_arrays_direct_method', POD), ('PODHandles', POD)])
p('N02', 'BPOD modes are the balancing bi-orthogonal modes of the Hankel array',
  'Each way of computing BPOD forms the block Hankel array whose block (i, j) is the inner product of adjoint snapshot i and direct snapshot j, takes its singular value decomposition, and returns direct (adjoint) modes from direct (adjoint) vectors with right (left) singular vectors over the square root of singular values, and the matching projection coefficients. This holds for any numbers of inputs and outputs and for complex data.',
  ['inputs'], 'all data, numbers of inputs and outputs, weights',
  'With one input and one output and real data many index and conjugation mistakes are invisible; the array-based tests do not run.',
  [BPOD, U], [('compute_BPOD_arrays', BPOD), ('BPODHandles', BPOD)])
p('N03', 'DMD eigenvalues and modes satisfy their definitions in every implementation',
  'Each way of computing DMD (method of snapshots, direct, handle-based; sequential or paired data) returns the eigenvalues of the data\'s best-fit linear map restricted to the span of the retained POD modes, the exact, projected and adjoint modes of that map with the stated scaling, and all ways agree. Advanced vectors enter exactly where the definition has them.',
  ['inputs', 'configurations'], 'all real and complex data, sequential and paired, all weights',
  'The array-based DMD tests do not run in this environment; handle-based tests compare with a copy of the same formulas on random data.',
  [DMD], [('compute_DMD_arrays_snaps_method', DMD), ('compute_DMD_arrays_direct_method', DMD), ('DMDHandles', DMD)])
p('N04', 'DMD spectral and projection coefficients are the adjoint-mode projections',
  'The projection coefficients returned for DMD and total-least-squares DMD are the adjoint modes\' inner products with the (de-noised) vectors, the advanced coefficients those with the advanced vectors, and the spectral coefficients are the magnitudes of the first column of the projection coefficients, in every implementation, for real and complex data.',
  ['inputs', 'configurations'], 'all real and complex data, sequential and paired',
  'The first-column relation is only sampled on data for which conjugation often does not matter.',
  [DMD], [('spectral_coeffs/proj_coeffs computations', DMD)])
p('N05', 'Total-least-squares DMD is DMD of the de-noised data in every implementation',
  'Each way of computing total-least-squares DMD projects the vectors and the advanced vectors onto the leading right singular subspace of both stacked together and then returns the DMD of the projected data (eigenvalues, exact, projected and adjoint modes); all ways agree.',
  ['inputs', 'configurations'], 'all real and complex data, sequential and paired, all weights and truncations',
  'Tests use noise-free or random data in which a missing or doubled projection changes little or is re-implemented identically.',
  [DMD], [('compute_TLSqrDMD_arrays_snaps_method', DMD), ('compute_TLSqrDMD_arrays_direct_method', DMD), ('TLSqrDMDHandles', DMD)])
p('N06', 'Array inner products are conjugate-linear and use the weights',
  'For array data the inner product array of X and Y is X*WY with W the identity, the diagonal of 1D weights, or 2D weights; the first argument is conjugated; a linear combination of columns uses the requested coefficient columns.',
  ['inputs'], 'all weights, real and complex data',
  'Tests use real random data or symmetric weights for some variants.',
  [V], [('VectorSpaceArrays', V)])
p('N07', 'Galerkin projections return the Petrov-Galerkin reduced model',
  'The reduced A and B are the inverse of the adjoint-basis/basis inner product array times the adjoint basis\' inner products with A and B acting on the basis and standard basis (the inverse omitted exactly when the basis is declared orthonormal), and the reduced C is C acting on the basis; the array- and handle-based classes agree, and the model saved is the model returned.',
  ['inputs', 'configurations'], 'orthonormal or not, with or without adjoint basis, real and complex',
  'Each test fixes one combination; with an (almost) orthonormal basis the inverse and its side do not matter.',
  [LTI], [('reduce_A/B/C and _get_proj_array', LTI)])
p('N08', 'ERA realises the Markov parameters through the right Hankel arrays',
  'The eigensystem realisation assembles two block Hankel arrays whose block (i, j) is the Markov parameter at even sample 2(i+j) and the following one respectively, and returns A, B and C from the leading singular triplets of the first by the ERA formulas, so that B uses the first block column and C the first block row, for any numbers of inputs and outputs.',
  ['inputs'], 'all Markov parameters, numbers of inputs and outputs, mc and mo, odd and even lengths',
  'Tests use a few sizes; an off-by-one in the second Hankel array or block sizes shows only for some shapes.',
  [ERA], [('_assemble_Hankel and compute_model', ERA)])
p('N09', 'OKID recovers Markov parameters by the observer recursion',
  'The estimated Markov parameters follow the observer/Kalman recursion: the data array stacks the inputs and i-step delayed inputs and outputs, the least-squares observer parameters are split into input and output parts block by block, and parameter k equals its input part minus the sum over i=1..k of output part i times parameter k-i.',
  ['inputs'], 'all inputs/outputs, numbers of signals and Markov parameters',
  'One test with stored data and a loose tolerance; single-input cases hide block mix-ups.',
  [OK], [('OKID', OK)])
p('N10', 'Truncated SVD and eigendecomposition keep factors consistent',
  'The truncated singular value and Hermitian eigenvalue decompositions return values in decreasing magnitude with their matching vectors, reproduce the array from the returned factors when nothing is truncated, and drop exactly those values not above the absolute tolerance or the tolerance relative to the largest one, with the corresponding vectors; in the positive-definite mode no negative eigenvalue is returned.',
  ['inputs'], 'all arrays and tolerance combinations',
  'Tests sample tolerances that cut well-separated spectra.',
  [U], [('svd', U), ('eigh', U)])
p('N11', 'Bi-orthogonal eigenvectors satisfy L*R = I with the requested scaling',
  'The bi-orthogonal eigendecomposition returns eigenvalues with matching right and left eigenvectors, scaled on the requested side only so that the conjugate transpose of the left ones times the right ones is the identity, for real and complex arrays; any other scaling choice is rejected.',
  ['inputs'], 'all diagonalisable arrays, both scalings',
  'Real-eigenvalue samples hide a missing conjugation of the scale factors.',
  [U], [('eig_biorthog', U)])
p('N12', 'User tolerances and truncation orders reach every factorisation',
  'The absolute tolerance, relative tolerance and maximum number of eigenvalues given by the user are applied, unchanged, to every factorisation the call performs, in every implementation; a truncation keeps the leading values and exactly the matching vectors on both.',
  ['inputs', 'configurations'], 'every tolerance and order, every implementation',
  'Tests rarely set the relative tolerance where it changes the rank, and a dropped parameter leaves results unchanged for full-rank data.',
  [POD, BPOD, DMD], [('atol/rtol/max_num_eigvals parameters passed to util.svd / util.eigh', DMD)])
p('N13', 'Requested mode indices select exactly those modes',
  'Every mode-computing operation returns or saves, in the order requested, the modes with the requested indices of the sorted decomposition (all modes when none are requested), applied once, to the coefficient columns only; direct and adjoint selections are not mixed.',
  ['inputs'], 'all index lists, in any order, every mode kind and implementation',
  'Tests request few patterns, and the array-based ones do not run.',
  [POD, BPOD, DMD, V], [('coeff_array_col_indices', V)])
p('N14', 'Hankel builders place element i+j at position (i, j)',
  'The (block) Hankel array built from a first column and a last row has element (block) i+j of the first column followed by the last row without its first element at position (i, j), zero where no last row was given, for any block shape and any numbers of rows and columns.',
  ['inputs'], 'all column/row lengths and block shapes',
  'Tests use square cases with the same block counts.',
  [U], [('Hankel', U), ('Hankel_chunks', U)])
p('N15', 'Provided inner products are conjugate-linear in the first argument',
  'The provided inner product functions conjugate their first argument and only it, weight by the given grids along the matching axes, reject vectors that do not match the grid, and the block inner product places the product of vectors i and j at (i, j).',
  ['inputs'], 'all real and complex vectors and grids',
  'Real sample vectors hide the conjugation; equal grids hide their order.',
  [VE, U], [('inner_product_array_uniform', VE), ('InnerProductTrapz', VE), ('InnerProductBlock', U)])
p('N16', 'The sampled-format conversion interleaves consecutive samples',
  'Converting an impulse response to the format ERA needs yields, for each consecutive pair of samples, both samples and both time steps, in order, without changing values, and rejects unequal lengths or unequally spaced times.',
  ['inputs'], 'all times and Markov parameter arrays',
  'One sample shape is tested.',
  [ERA], [('make_sampled_format', ERA)])
p('N17', 'Time derivatives are first-order differences of matching vectors',
  'The derivative of vector i is (advanced vector i minus vector i) divided by the time step, each computed once and stored to its own handle, for arrays and for handles in any distribution over processes.',
  ['inputs', 'configurations'], 'all vectors, time steps, process counts',
  'Tests use one size and one process distribution.',
  [LTI], [('compute_derivs_handles', LTI), ('compute_derivs_arrays', LTI)])
p('N18', 'Simulation helpers treat the state-space model consistently',
  'Discrete-time simulation and impulse-response helpers use the given A, B, C with zero feed-through and unit time step, honour the initial condition and number of steps, and index Markov parameter k as C A^k B in (step, output, input) order.',
  ['inputs'], 'all stable models, inputs, initial conditions',
  'Only single cases are compared with the same scipy routines.',
  [U], [('lsim', U), ('impulse', U)])
p('N19', 'Result fields carry the quantity they are named after',
  'Every field of a result record returned by an array-based function holds the quantity of that name, and the tuple returned by a handle-based decomposition holds the documented quantities in the documented order.',
  ['inputs'], 'every result record of every function',
  'Tests read a subset of the fields, and not for all functions.',
  [POD, BPOD, DMD], [('namedtuple results', POD), ('compute_decomp return tuples', DMD)])
p('N20', 'Balanced truncation returns a balanced realisation of the given order',
  'Balanced truncation of a model returns the model projected on the leading balancing transformation computed from its controllability and observability Gramians, of the order requested, together with the Hankel singular values when asked.',
  ['inputs'], 'all stable models and orders',
  'One test with a loose comparison for one order.',
  [U], [('balanced_truncation', U)])

p('N21', 'Random test systems have the requested size and are stable',
  'The random discrete- and continuous-time state-space models have the requested numbers of states, inputs and outputs, and their eigenvalues are real and stable: inside the unit circle for discrete-time models, not positive for continuous-time ones.',
  ['inputs'], 'all numbers of states, inputs and outputs; every outcome of the random generator',
  'Tests draw single models, and mostly as inputs of other tests.',
  [U], [('drss', U), ('rss', U)])

# ------------------------------------------------------------------ data and IO
p('D01', 'What is loaded into a slot is what was saved from that slot',
  'For every decomposition object, saving stores each computed quantity under the destination the caller gave for it and loading from the same sources, in the same argument order, restores each quantity to the same place with the same shape (given put_array and get_array functions that return what was put), so a decomposition can be resumed in another object from its saved arrays.',
  ['inputs', 'histories'], 'every put/get pair of every class, any sizes including a single eigenvalue',
  'Tests save and load with many modes; two swapped destinations of equal shape or a single retained value are not exercised.',
  [POD, BPOD, DMD, ERA, LTI], [('put_decomp/get_decomp and the single put_/get_ methods', DMD)])
p('D02', 'Text files reproduce real and complex arrays',
  'Saving an array to text and loading it back with the matching real/complex setting returns the same numbers in the same two-dimensional shape (one-dimensional arrays as a column), whatever the array\'s number type, memory layout or delimiter; loading with a contradictory setting is rejected when the file cannot be complex.',
  ['inputs'], 'all array types, layouts, shapes and delimiters',
  'Tests use C-ordered double arrays only.',
  [U], [('save_array_text/load_array_text', U)])
p('D03', 'A vector handle returns its own vector minus its own base, times its scale',
  'Getting a vector through a handle returns the stored vector minus the base handle\'s vector (if any), times the scale (if any), in that order, and putting stores the given vector unchanged where getting finds it; the stored vector and base are not modified.',
  ['inputs', 'histories'], 'all handles, bases and scales, any order of gets and puts on different handles',
  'Tests use one base at a time.',
  [VE], [('VecHandle.get/put', VE)])
p('D04', 'The base-vector cache never returns another base\'s vector',
  'Caching of base vectors is invisible: a handle always subtracts the vector its own base handle would return now, whichever handles were read before it and whatever was put through a handle since.',
  ['histories'], 'all sequences of gets and puts over handles with different bases',
  'Each test reads handles sharing one base.',
  [VE], [('VecHandle.cached_base_vec_handle/cached_base_vec', VE)],
  state=[('cached_base_vec_handle, cached_base_vec', 'class-level cache of the last base vector', VE)])
p('D05', 'User data is never modified',
  'No operation changes the arrays, lists or vectors the caller passes in or that a vector handle returns; a result never shares memory that a later call writes into.',
  ['inputs', 'histories'], 'all array and list inputs; vectors returned by in-memory handles',
  'Tests compare results, not inputs, after the call.',
  ['modred'], [('np.array copies at entry, no in-place operators on inputs', POD)])
p('D06', 'Files opened by the library are closed, and written where asked',
  'Every file the library opens is closed on every path including errors, is opened in the mode matching its format (binary for pickles), and reads and writes use the path given by the user.',
  ['inputs', 'fault_sequences'], 'every load and save operation, with and without exceptions in between',
  'Leaked handles are invisible to the tests under reference counting.',
  [VE, P2, U], [('with open(...)', VE)])
p('D07', 'Signals read from several files keep file order and agree on time',
  'Loading signals returns the first column of each file as times and the remaining columns as signals; loading several returns file k\'s signals at index k with the times of the first file; a file that has no signal column, or whose times (to within numpy.allclose\'s default tolerance) or number of signals differ from the other files, is rejected with ValueError, and consistent files never are.',
  ['inputs'], 'any number of files and signals',
  'One test with a few files of equal shape.',
  [U], [('load_signals/load_multiple_signals', U)])

# ------------------------------------------------------------------ state and robustness
p('S01', 'A decomposition object holds no stale results from earlier calls',
  'The outcome of a computation depends only on the arguments of the latest decomposition call and the objects\' settings, not on what was computed before: re-running a decomposition with other data replaces everything later steps use, and settings given at construction stay in force until overridden.',
  ['histories'], 'every sequence of calls on one object',
  'Tests create a fresh object for each computation.',
  [POD, BPOD, DMD, ERA, LTI], [('attributes assigned by compute_decomp/compute_model', DMD)])
p('S02', 'Complex data stays complex',
  'Wherever complex input is accepted, no intermediate or result array discards the imaginary part: storage allocated for results can hold the kind of numbers put into it.',
  ['inputs'], 'complex inputs to every operation',
  'Many tests use real data; discarding only raises a warning.',
  [V, ERA, OK, U], [('dtype of allocated result arrays', V)])
p('S03', 'Invalid input is rejected with a proper exception before any effect',
  'Input that the documentation or an argument check rules out (unequal counts of vectors, advanced, derivative, basis or adjoint basis vectors, coefficients whose numbers of rows or columns differ from the numbers of handles, arrays with the wrong number of dimensions or unequal shapes, too few samples for the requested sizes, an unknown option, an undefined inner product, modes requested before vectors are given) raises ValueError, TypeError, RuntimeError or UndefinedError as the existing check does, on every process, before any vector or file is written or message exchanged, instead of computing a wrong result or failing with an unrelated error; consistent input is not rejected.',
  ['inputs'], 'every documented precondition of every entry point',
  'Few error paths are tested.',
  ['modred'], [('argument checks raising ValueError/RuntimeError/UndefinedError', V)])
p('S04', 'Zero verbosity is silent and progress messages come from rank zero only',
  'With verbosity zero the classes that take a verbosity print nothing; otherwise the messages of the handle-based classes are printed by rank zero only, on the channel requested, and printing never influences results.',
  ['configurations', 'inputs'], 'every operation, verbosity and process count',
  'Output is not captured or compared by the tests.',
  [V, PA, P2, ERA], [('print_msg', V)])
p('S05', 'The library leaves process-wide state alone',
  'No operation changes process-wide state the caller relies on (random seeds, numpy error and print settings, warning filters, working directory, environment, signal handlers), reads hidden global configuration, or writes files other than those requested; only the random-system generators drss and rss, documented as random, draw from the global random generator.',
  ['histories', 'inputs'], 'every operation in any order',
  'Tests do not compare global state before and after.',
  ['modred'], [('absence of such calls', 'modred')])
p('S06', 'Vectors are used only through the documented protocol',
  'Vectors obtained from handles are only added, multiplied by a scalar, subtracted when a base is set, passed to the user\'s inner product, exchanged and put; no other attribute, index or array function is applied to them, and handles are only asked to get and put, so any user-defined vector and handle class works; the operations that the recommended vector base class derives (multiplication from the left by a scalar, subtraction) agree with the addition and scalar multiplication of the subclass.',
  ['programs', 'inputs'], 'every user-defined vector and handle class meeting the documented requirements',
  'The tests\' vectors are numpy arrays, on which undocumented operations work too.',
  [V, VE, LTI], [('vector arithmetic in VectorSpaceHandles', V)])
p('S07', 'The sanity check detects non-linear vectors without damaging them',
  'The sanity check raises an error exactly when scaling or adding the test vector changes its inner products wrongly or alters the original, covers scaling, addition and their combination, and leaves the vector behind the handle unchanged.',
  ['inputs', 'programs'], 'every user-defined vector class',
  'A few faulty vector classes are tested.',
  [V], [('VectorSpaceHandles.sanity_check', V)])
p('S08', 'Objects are independent of each other',
  'Two objects of any class share no mutable state: no mutable default argument, class attribute or module variable is modified by using one object (the documented base-vector cache excepted), so the order in which objects are used does not matter.',
  ['histories', 'programs'], 'any number of objects used in any interleaving',
  'Tests use objects one at a time.',
  ['modred'], [('instance attributes assigned in constructors', V)])
p('S09', 'Everything the package exports can be imported and called as documented',
  'Every public name the package exports exists in the module it comes from, every internal call passes arguments its callee accepts, and every name used inside a function is defined on every path that reaches its use.',
  ['inputs', 'programs'], 'every exported name, every call site, every path',
  'Branches that no test takes (warnings, error paths) can refer to missing names or wrong signatures without failing a test.',
  ['modred'], [('imports in __init__', 'modred/__init__.py')])
p('S10', 'Equal spaces and handles compare equal and only then',
  'Comparison of inner-product spaces and vector handles is consistent: equal exactly when type and defining data agree, never failing on other types, and inequality is the negation of equality.',
  ['inputs'], 'all pairs of objects, including other types and array-valued data',
  'Tests compare a few pairs.',
  [V, VE, U], [('__eq__/__ne__', V), ('smart_eq', U)])
# ------------------------------------------------------------------ beyond static reach
p('X01', 'Modes are orthonormal and reconstructions accurate to rounding',
  'Computed modes are orthonormal (bi-orthogonal) and reconstruct the data to within the rounding error expected from the retained tolerance.',
  ['inputs'], 'all data, however ill-conditioned',
  'Tests sample well-conditioned random data with loose tolerances.',
  [POD, BPOD, DMD], [('util.svd/util.eigh', U)])
p('X02', 'Distributed runs are faster and balanced',
  'Work and retrievals are balanced over processes so that run time decreases with the number of processes, and the printed time estimates are lower bounds.',
  ['schedules', 'configurations'], 'all process counts and vector costs',
  'Timing is not tested.',
  [V, PA], [('find_assignments and time estimates', V)])
p('X03', 'The benchmark OKID/ERA pipeline identifies the true system',
  'Given enough exciting data of a linear system, the identification pipeline recovers its Markov parameters and a model reproducing its response within the noise level.',
  ['inputs'], 'all exciting input signals and linear systems',
  'One data set with a loose tolerance.',
  [OK, ERA], [('np.linalg.lstsq', OK)])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
print(len(OUT), 'properties')
