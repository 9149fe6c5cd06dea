import json
P=[]
def p(id,title,st,over,q,why,files,mech,**kw):
    a={"files":["PyQCodes/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
KR="chan/_kraus.py"; CH="chan/channel.py"; CO="chan/_choi.py"; OP="chan/_coherent.py"; PA="chan/param.py"; LI="_optimize.py"; CD="codes.py"; FC="find_codes.py"; AV="avgfid/avg_fidelity.py"; DE="device_adaptor.py"
def w(f,*n): return [(x,"PyQCodes/%s"%f) for x in n]
p("C01","Applying a channel gives the operator sum of its Kraus operators",
"For every trace-preserving Kraus set {K_i} (real or complex, square or not) and every n, applying the channel to a density matrix rho returns sum_i K_i rho K_i^dagger with K_i the n-fold tensor products, and the adjoint returns sum_i K_i^dagger Y K_i. This holds identically for the dense and the sparse representation, for the low-level Kraus objects and the channel object that wraps them, and a stack of density matrices is mapped entry by entry.",
["inputs","configurations"],"all Kraus sets, all sizes, all density matrices (2-D or stacked), both representations, channel and adjoint",
"Tests sample a few mostly real, symmetric channels; a lost conjugate, a transposed operator or a wrong contraction is invisible on those inputs but breaks complex or non-square ones.",
[KR,CH],w(KR,"DenseKraus.channel","SparseKraus.channel","SparseKraus._initialize_kraus_ops")+w(CH,"AnalyticQChan.channel"))
p("C02","Every use count n gives the n-fold tensor power, whatever was asked before",
"After any sequence of calls with use counts n1, n2, ..., n (growing, shrinking, repeated, or back to one), the channel, its adjoint, the complementary channel, the stored n-use operators and the reported dimensions are exactly those of the n-fold tensor power of the channel that was constructed, as for a fresh object asked for n directly. The operators of the single-use channel never change.",
["histories"],"all histories of requested use counts, all Kraus sets, dense and sparse",
"The cached tensor power is mutable state updated incrementally up and down; a test follows one or two histories, while staleness only shows after specific sequences and can be masked for real channels.",
[KR,CH],w(KR,"Kraus.update_kraus_operators","DenseKraus._kraus_operators_exchange","SparseKraus._tensor_kraus_operators","SparseKraus._kraus_operators_exchange")+w(CH,"AnalyticQChan._update_channel_tensored","AnalyticQChan.channel","AnalyticQChan.entropy_exchange"),state=[{"name":"current use count and cached n-use operators","meaning":"which tensor power the arrays hold","where":"PyQCodes/chan/_kraus.py Kraus.__init__"}])
p("C03","The complementary channel is the entropy-exchange matrix of the Kraus operators",
"For every Kraus set and state, the entropy-exchange result is a list holding the matrix with entries tr(K_i rho K_j^dagger) for the n-use operators, and its adjoint maps an environment matrix Y to sum_ij Y_ij K_i^dagger K_j, the Hilbert-Schmidt adjoint of that map up to the documented transposition. Dense and sparse representations agree.",
["inputs","configurations"],"all Kraus sets, n, states, and environment matrices, dense and sparse",
"A transposition or conjugation error leaves the spectrum right for the real examples used in tests and changes it only for generic complex ones.",
[KR,CH],w(KR,"DenseKraus.entropy_exchange","SparseKraus.entropy_exchange","DenseKraus._initialize_kraus_ops")+w(CH,"AnalyticQChan.entropy_exchange"))
p("C04","Orthogonal Kraus sets split the complementary channel into its diagonal blocks",
"When the caller declares where mutually orthogonal groups of Kraus operators start, the complementary channel is returned as the list of diagonal blocks of the full entropy-exchange matrix, one per group, contiguous, in order, covering every operator exactly once, for every number and size of groups and every n.",
["inputs","configurations"],"all group boundaries, all n",
"Tests use one boundary placed in the middle, where several wrong slicings coincide with the right one.",
[KR],w(KR,"DenseKraus.entropy_exchange","DenseKraus.__init__"))
p("C05","Serial concatenation is composition, the right operand acting first",
"Concatenating channels B + A yields the channel whose operators are exactly all products B_i A_j, each once, so that it acts as A followed by B; its input size is that of A and its output size that of B. Incompatible sizes are rejected, and dense, sparse and channel-level concatenation agree.",
["inputs","configurations"],"all pairs of compatible channels including those that change dimension or number of qubits",
"Tests compose small commuting or equal-size channels, where the order and the size bookkeeping cannot be told apart from wrong ones.",
[KR,CH],w(KR,"DenseKraus.serial_concatenate","SparseKraus.serial_concatenate","DenseKraus.__add__","SparseKraus.__add__")+w(CH,"AnalyticQChan.__add__"))
p("C06","Parallel concatenation is the tensor product, left operand on the left factor",
"Concatenating A * B yields the channel whose operators are exactly all Kronecker products A_i (x) B_j with A on the left factor, and whose input and output sizes are the products of the sizes of A and B, for any number of qubits of either. Dense, sparse and channel-level concatenation agree.",
["inputs","configurations"],"all pairs of channels, any qubit numbers and dimensions",
"Tests multiply one-qubit channels; multi-qubit and dimension-changing operands take different sizes through the same bookkeeping.",
[KR,CH],w(KR,"DenseKraus.parallel_concatenate","SparseKraus.parallel_concatenate","DenseKraus.__mul__","SparseKraus.__mul__")+w(CH,"AnalyticQChan.__mul__"))
p("C07","No channel object exists for operators that are not a channel of the stated size",
"Constructing a channel from Kraus operators succeeds only if sum_i K_i^dagger K_i is the identity on the whole input space and every operator has the row and column size implied by the qubit numbers and dimensions; constructing from a Choi matrix succeeds only if its size matches and it is trace-preserving and completely positive. Every other input raises an error, on every construction path.",
["inputs","configurations"],"all operator inputs and all declared sizes, dense, sparse and Choi",
"A gate that is skipped on one path, checks only some entries, or checks K K^dagger instead of K^dagger K accepts invalid channels that no finite list of bad examples enumerates.",
[KR,CH,CO],w(KR,"Kraus.__init__","DenseKraus.is_trace_perserving","SparseKraus.is_trace_perserving")+w(CH,"AnalyticQChan.__init__")+w(CO,"ChoiQutip.__init__"))
p("C08","Entropy is base-two von Neumann entropy and coherent information is S(B) - S(E)",
"The entropy of a matrix, or of a list of blocks of any shapes, is minus the sum of e*log2(e) over all eigenvalues above the cut-off. The coherent information of a state is the entropy of the channel output minus the entropy of the complementary output for the same state and the same n, divided by n exactly when the regularized value is requested; it is the same for Kraus and Choi forms.",
["inputs","configurations"],"all states, channels, n, dense/sparse/Choi, regularized or not",
"Swapped terms, a wrong logarithm base, a block left out or a mismatched n give plausible numbers; tests compare a handful of values with loose tolerances.",
[CH],w(CH,"AnalyticQChan.entropy","AnalyticQChan.coherent_information"))
p("C09","State fidelity and average entanglement fidelity follow their definitions",
"The fidelity of a state rho with its image is tr sqrt( sqrt(rho) N(rho) sqrt(rho) ). The average entanglement fidelity of an ensemble {p_a, rho_a} is sum_a p_a sum_i |tr(K_i rho_a)|^2 over the whole ensemble, and the dense, the sparse and the Choi form of one channel give the same value.",
["inputs","configurations"],"all states and ensembles, complex operators, all three representations",
"Agreement between three implementations must hold for every complex channel and ensemble; tests try real or symmetric ones and one member.",
[KR,CH,CO],w(KR,"DenseKraus.average_entanglement_fidelity","SparseKraus.average_entanglement_fidelity")+w(CO,"ChoiQutip.average_entanglement_fidelity")+w(CH,"AnalyticQChan.fidelity_two_states","AnalyticQChan.average_entanglement_fidelity"))
p("C10","A Choi matrix and the Kraus operators it encodes describe the same channel",
"With column-stacking and the input factor first, the channel given by a Choi matrix C = sum vec(K) vec(K)^dagger maps rho to sum K rho K^dagger and its adjoint to sum K^dagger Y K; the Kraus operators extracted from it reproduce C, one per eigenvalue above the cut-off, and its complementary output is (sqrt(rho)^T (x) 1) C (sqrt(rho)^T (x) 1). The trace-preservation constraint handed to the semidefinite solver traces out the output factor with the sizes of input and output, also when these differ.",
["inputs","configurations"],"all Choi matrices and states, any number of qubits in and out, any dimensions",
"Input and output factors coincide in size in the tests, so exchanging them, or row for column stacking, goes unnoticed there.",
[CO,CH],w(CO,"ChoiQutip.channel","ChoiQutip.complementary_channel","ChoiQutip.kraus_operators","ChoiQutip.constraint_partial_trace","ChoiQutip._vectorize_rho"))
p("O01","A reported optimum is the best run, with that run's value, state and success",
"Over any set of starting points, the reported value, density matrix and success flag all come from one and the same run, the run with the lowest minimized objective; sequential and parallel execution choose the same run. The reported state is the parameterization of that run's final vector, for the given size and rank.",
["inputs","schedules"],"all sets of starts and all outcomes of the individual runs, in any order",
"Optimizer outcomes are random; a wrong selection still returns a plausible number in most test runs, and exact order of outcomes cannot be sampled.",
[OP],w(OP,"_use_multi_processes","_optimize_samples_slsqp","_optimize_differential_evol","optimize_procedure"))
p("O02","The optimized objective is the documented one, with the caller's settings",
"Optimizing coherent information minimizes minus the coherent information and reports it with positive sign (divided by n exactly once when regularized); optimizing fidelity minimizes the fidelity over pure states. The use count, rank, parameterization, bounds, user-supplied starts, iteration limit and pool size given by the caller are the ones used, and unknown objective, optimizer or parameterization names are rejected.",
["inputs","configurations"],"all combinations of objective, optimizer, parameterization, starts, n, rank",
"The option space is a product of many switches of which tests run a few; a dropped or swapped argument changes what is optimized without failing.",
[OP,CH],w(OP,"_objective_func_coherent","_objective_func_fidelity","_choose_objective_func","_get_parameterization_scheme_density","optimize_procedure")+w(CH,"AnalyticQChan.optimize_coherent","AnalyticQChan.optimize_fidelity"))
p("O03","Every initial guess passes the Lipschitz test, or failure is reported",
"The sampler of initial guesses returns vectors, and the objective value of each in the same order; a candidate is accepted only if the largest value so far is at most every accepted value plus the entrywise distance between the candidate's and that sample's density matrix. It tries at most the allowed number of candidates, never returns more guesses than requested, and reports success exactly when the requested number was reached.",
["inputs","histories"],"all objectives, all random sequences of candidates",
"The outcome depends on a random sequence; a test sees one sequence and cannot tell a mis-stated acceptance rule or misaligned lists from a right one.",
[LI,OP],w(LI,"initial_guesses_lipschitz"))
p("M01","Every parameter vector decodes to a density matrix of the requested rank",
"For every real parameter vector of the right length the over-parameterized and the Cholesky scheme return A A^dagger / tr(A A^dagger) with A of shape size by rank, hence a positive-semidefinite, Hermitian, trace-one matrix of rank at most the requested one, where entries of A are filled from disjoint coordinates of the vector that together use all of them. The standard-basis scheme returns a Hermitian matrix.",
["inputs"],"all parameter vectors, sizes and ranks",
"Positivity and normalization must hold for every vector the optimizer visits; a misplaced conjugate or normalization is invisible on the real or rank-one vectors sampled.",
[PA],w(PA,"OverParam.rho_from_vec","CholeskyParam.rho_from_vec","StandardBasis.rho_from_vec"))
p("M02","Vector layout, number of variables, bounds and random vectors agree per scheme",
"In each parameterization scheme the encoder writes coordinates in the layout the decoder reads (so encoding then decoding a density matrix gives it back), and the declared number of variables, the length of the bounds list and the length of random vectors are all the number of coordinates the decoder consumes, for every size and rank; coordinates that must be non-negative have non-negative bounds.",
["inputs"],"all density matrices, sizes and ranks",
"Layouts that differ only from size three on, or only for reduced rank, pass the small cases in tests.",
[PA],w(PA,"StandardBasis.vec_from_rho","OverParam.vec_from_rho","OverParam.random_vectors","CholeskyParam.vec_from_rho","CholeskyParam.bounds","CholeskyParam.random_vectors"))
p("S01","Pauli strings, binary vectors and matrices are one consistent encoding",
"Letter by letter, I, X, Z, Y correspond to (x,z) = (0,0), (1,0), (0,1), (1,1) with x in the first half and z in the second half of the binary vector at the position of the qubit, in both directions; the matrix of a vector is the Kronecker product over qubits in order of I, X, Z and XZ, dense or sparse. Unknown letters, non-binary entries and strings of unequal length are rejected.",
["inputs"],"all Pauli strings and binary vectors of any length, both directions, dense and sparse",
"The tables are stated several times and must agree for every position and length; tests use short or symmetric strings.",
[CD],w(CD,"StabilizerCode.binary_rep_to_pauli_str","StabilizerCode.binary_rep_to_pauli_mat","StabilizerCode.pauli_str_to_binary_representation","StabilizerCode.index_to_qubit_pauli"))
p("S02","Only commuting stabilizer groups of the right size become codes",
"A stabilizer code can be constructed only from n-k generators on n qubits that commute pairwise, where commutation of two binary vectors is decided by the symplectic product modulo two (zero if and only if they commute); every other input raises an error, whether given as strings, lists or arrays. Supplied logical operators must have 2n columns and are then the ones used.",
["inputs"],"all sets of generators in every input form",
"A pair not compared, or a product missing one half, accepts non-commuting sets that no finite list of rejected examples covers.",
[CD],w(CD,"StabilizerCode.__init__","StabilizerCode._is_stabilizer_code","StabilizerCode.inner_prod"))
p("S03","Logical operators are read off the standard form by the block formulas",
"With the standard form [[I A1 A2 | B 0 C1+C2...],[0 0 0 | D I E]] the logical X operators are [0 E^T I | E^T C1^T + C2^T 0 0] and the logical Z operators are [0 0 0 | A2^T 0 I] modulo two, with blocks taken at the boundaries rank, n-k and n of each half. Construction brings independent commuting generators to that form. It is reached only by row additions modulo two, row swaps, and column swaps applied to both halves alike, without altering the stored generators.",
["inputs"],"all stabilizer codes",
"Codes in tests rarely have every block nonzero, so a wrong block boundary, a missing term or an aliased swap goes unseen.",
[CD],w(CD,"StabilizerCode.logical_operators","StabilizerCode._matrix_blocks_standard_form","StabilizerCode._gaussian_elimination_first_block","StabilizerCode._gaussian_elimination_second_block"))
p("S04","The encoder isometry spans the joint plus-one eigenspace of all stabilizers",
"The encoding operator is obtained by projecting, for every generator in turn, onto its plus-one eigenspace within the space kept so far, so its columns are orthonormal and fixed by every generator; the sparse form is the same matrix.",
["inputs"],"all stabilizer codes whose generators are Hermitian in the matrix convention used",
"Skipping one generator, or picking another eigenvalue, yields an isometry of a different code that short tests on symmetric codes accept.",
[CD],w(CD,"StabilizerCode.encode_krauss_operators"))
p("S05","Encoding and decoding circuits apply exactly the gates of the standard form",
"Encoding sets the last k qubits to the given bits, then (when the rank is below n-k) applies the logical X parts controlled on them from the last logical qubit to the first, then for each of the first rank generators a Hadamard and the generator's Paulis on all other qubits controlled on that one. Decoding first copies each logical Z value by controlled-NOTs into its ancilla and then applies each logical X controlled on its ancilla, letter for letter; wrong state or register sizes are rejected.",
["inputs","programs"],"all codes and all input states",
"Gate order, targets and controls matter for every code; simulation tests cover a few codes where several gates never occur.",
[CD],w(CD,"StabilizerCode.encoding_circuit","StabilizerCode.decoding_circuit"))
p("S06","Syndrome, stabilizer and logical circuits apply the named Pauli to each qubit",
"Measuring a generator applies Hadamard, the generator's Paulis on their own qubits all controlled on the ancilla, Hadamard, then measures that ancilla and returns its value; the register size must be n or n+1 and the ancilla is the newly allocated or the last qubit accordingly. Applying a stabilizer, or the logical X, Y or Z with index i, applies for each qubit exactly the Pauli letter at that position, where logical Y is the modulo-two sum of logical X and Z, for strings and binary vectors alike.",
["inputs","programs"],"all codes, generators and logical indices, in either input form",
"Each circuit repeats the letter dispatch; an index or letter mix-up in one of them shows only for generators containing that letter at that place.",
[CD],w(CD,"StabilizerCode.single_syndrome_measurement","StabilizerCode.apply_stabilizer_circuit","StabilizerCode.logical_circuit"))
p("S07","A concatenated code has inner generators per block and encoded outer ones",
"Concatenating an [n,k] code with an [m,l] code where l divides n gives a code on (n/l)*m qubits with k logical qubits: a copy of every inner generator on every block, and for every outer generator the product over its qubits j of the corresponding whole logical operator number j mod l of block j div l, identity letters contributing nothing. Other sizes are rejected.",
["inputs"],"all pairs of codes with l = 1 or l > 1",
"The two tests use codes for which wrong block or logical indices coincide with right ones.",
[CD],w(CD,"StabilizerCode.concatenate_codes"))
p("S08","Error-correcting operators and undetectable errors follow the commutation rule",
"For every error operator exactly one output is produced, in order: the first stabilizer that anticommutes with it times the error, or the error itself when it commutes with all. The normalizer listing contains every Pauli that commutes with all generators except the elements of the stabilizer group, once each, and undetectable errors are those same elements as strings.",
["inputs"],"all codes and error lists, dense and sparse",
"A lost, duplicated or reordered operator makes an invalid channel only for particular error lists.",
[CD],w(CD,"StabilizerCode.kraus_operators_correcting_errors","StabilizerCode.normalizer","StabilizerCode.undetectable_errors"))
p("S09","Logical operators commute with every generator and pair up",
"The k logical X and k logical Z operators of a constructed code each commute with every generator the caller gave; logical X_i and Z_j anticommute exactly when i = j, and logical operators of the same kind commute.",
["inputs"],"all stabilizer codes whose logical operators are computed by the library",
"The operators come out of an elimination that may reorder qubits, for inputs in general position; the tests use codes given almost in standard form.",
[CD],w(CD,"StabilizerCode.logical_operators","StabilizerCode._standard_normal_form","StabilizerCode._gaussian_elimination_first_block","StabilizerCode._gaussian_elimination_second_block"))
p("D01","The inverse of the random two-design undoes it exactly",
"For every register size and every random draw, the inverse circuit applies the inverses of the gates of the two-design in exactly the reverse order, each with the phase that was drawn for that gate. Each round consists of a random phase from {0, 2pi/3, 4pi/3} on every qubit, a controlled phase from {0, pi} on every ordered pair of qubits, and Hadamards on all qubits, and the number of rounds is 2*ceil(log2(1/epsilon)/qubits)+1.",
["inputs","schedules"],"all register sizes, tolerances, and random draws",
"The pairing of stored phases with gates must hold for every draw and register size; a mispairing is invisible for one qubit or for draws of equal phases.",
[DE],w(DE,"ProjectQDeviceAdaptor.approximate_unitary_two_design","ProjectQDeviceAdaptor.inverse_of_unitary_two_design"))
p("D02","Average-fidelity estimation follows the twirling protocol, giving a frequency",
"In each of the requested trials on a simulator the register is reset to all zeros (by setting the wave function only when asked to), the two-design, the channel and the inverse with that trial's phases are applied in this order, every qubit is measured after that and before its value is read, and the trial counts exactly when all outcomes are zero. The result is the count divided by the number of trials, hence in [0,1].",
["inputs","histories"],"all channels, trial numbers, tolerances and reset modes",
"The protocol is a sequence over a quantum engine; an omitted reset or flush, or phases of a previous trial, changes estimates statistically and not on the trivial channels in tests.",
[DE],w(DE,"ProjectQDeviceAdaptor.estimate_average_fidelity","ProjectQDeviceAdaptor.set_register_to_zero"))
p("D03","Code fidelity on a device runs encoder, channel, decoder with right parameters",
"Estimating the fidelity of an error-correcting code applies encoder, then channel, then decoder on the same engine and register. Optimizing their parameters passes the first block of the parameter vector to the encoder and the rest to the decoder, maximizes the estimated fidelity, reports it with its sign, splits the optimal vector the same way, and rejects bounds of the wrong length and unknown optimizers.",
["inputs","configurations"],"all encoders, decoders, channels and parameter counts",
"The composition is built from caller-supplied callables; tests run one trivial choice.",
[FC],w(FC,"QDeviceChannel.estimate_average_fidelity_channel","QDeviceChannel.estimate_average_fidelity_error_code","QDeviceChannel.optimize_encoder_decoder_average_fidelity"))
p("F01","The effective channel of a code is correction after noise after encoding",
"The effective channel has one Kraus operator per noise operator of the n/k-fold noise channel, namely the corrected error times the encoder, mapping k qubits to n qubits; the objective named by the caller is optimized over it with the caller's options overriding the documented defaults, and unknown objectives or mismatched sizes are rejected.",
["inputs","configurations"],"all codes, Pauli channels and options",
"Order of composition and option handling must be right for every code and option; tests run few and do not inspect the options.",
[FC],w(FC,"effective_channel_with_stabilizers"))
p("F02","The recovery program maximizes average entanglement fidelity over all channels",
"The recovery semidefinite program ranges over positive-semidefinite matrices on (recovery input) (x) (recovery output) whose trace over the output is the identity, and maximizes the inner product with sum_i vec(K_i^dagger) vec(K_i^dagger)^dagger divided by the squared dimension of the logical space, for dense and sparse operators alike, K_i being the n/k-fold noise composed with the encoder. Caller-supplied solver options override the defaults by name, and the returned value and matrix are those of the solved program.",
["inputs","configurations"],"all codes, channels (complex included), sizes, options, dense and sparse",
"Solving takes minutes, so tests cannot vary it; a missing conjugate or exchanged factor still solves to a plausible number.",
[AV,CO],w(AV,"optimize_decoder_stabilizers","_optimize_average_entang_fid","_convert_sparse_matrix_into_cvx_opt")+w(CO,"ChoiQutip.constraint_partial_trace"))
p("X01","Library calls do not change their arguments or hidden global state",
"No public operation modifies an array, list, dictionary or stabilizer object passed to it (except a quantum register given to a circuit), and arrays held by a channel or code are not shared with arrays of the caller, so a later change by the caller does not alter it. No operation reseeds or replaces global random state, stores to module-level data, or carries state between calls through default arguments.",
["inputs","histories"],"all public operations, all sequences of calls",
"Aliasing and hidden state show only when the caller reuses or changes the argument afterwards, a history tests do not replay.",
[KR,CH,CO,OP,PA,LI,CD,FC,AV,DE],w(KR,"DenseKraus.__init__")+w(CD,"StabilizerCode._gaussian_elimination_first_block")+w(OP,"optimize_procedure"))
p("X02","Every name, attribute and call in the library resolves on every path",
"Whatever branch the inputs select, every name read is defined on all paths before it, every attribute and method used on a library object exists, and every call to a library function passes arguments its signature accepts.",
["inputs","configurations"],"all branches of all functions",
"A misspelt name or wrong argument list fails only when its branch runs, and many branches are not run by any test.",
[KR,CH,CO,OP,PA,LI,CD,FC,AV,DE],w(CH,"AnalyticQChan")+w(CD,"StabilizerCode")+w(FC,"QDeviceChannel"))
p("N01","Optimization reaches the global optimum",
"The value reported by optimizing coherent information or fidelity is the global optimum over density matrices of the given rank.",
["inputs"],"all channels","Global optimality of a stochastic or local optimizer is not observable from samples.",
[OP],w(OP,"optimize_procedure"))
p("N02","The random circuit is an epsilon-approximate unitary two-design",
"The distribution of random circuits has second moments within epsilon of the Haar average for every register size and epsilon.",
["inputs"],"all register sizes and tolerances","It is a statement about a distribution over circuits, not about any run.",
[DE],w(DE,"ProjectQDeviceAdaptor.approximate_unitary_two_design"))
p("N03","Numerical results are accurate to stated tolerance",
"Entropies, fidelities and eigen-decompositions are within a small absolute error of their exact values for all inputs, including nearly singular states.",
["inputs"],"all inputs","Rounding error depends on the values of the input and the linear algebra library.",
[CH,CO],w(CH,"AnalyticQChan.entropy"))
with open(__import__("os").path.join(__import__("os").path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80 or print(x['id'],len(x['title']),x['title']) or True,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
