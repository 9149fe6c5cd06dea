"""Per-property notes for MANIFEST.json."""
TECH = {
    "D01": "abstract interpretation recording gate effects; circuit rewriting over all values of the draws",
    "D02": "abstract interpretation recording gate and measurement effects; protocol automaton and circuit rewriting",
    "D03": "abstract interpretation recording call and gate effects; protocol automaton",
}
EXTRA = {
    "C02": "Histories: all orders of up to three symbolic use counts over dense and sparse objects; longer histories reduce to these because each request is shown to restore the same abstract state.",
    "S01": "Symbolic numbers of qubits where the analysis summarises the loop, otherwise 1-3 qubits; entries are always symbolic.",
    "S02": "Symbolic numbers of qubits and generators for the commutation guard, complete case partitions of families on 2-5 qubits.",
    "S03": "Complete case partitions of families of generators on 2-4 qubits (5-7 in thorough); the block formulas also on symbolic blocks.",
    "S04": "Complete case partitions of families of Hermitian generators (even number of Y) on 1-3 qubits, further codes on 4-5 qubits.",
    "S05": "Complete case partitions of families of generators on 2-4 qubits; the encoder for every logical bit string, the decoder as an operator on n+k qubits.",
    "S06": "Complete case partitions of words on 2-4 qubits and of families of codes; registers of n and n+1 qubits.",
    "S07": "Complete case partitions of outer codes on 2-4 qubits and inner codes on 2-5 qubits, one of the two fixed.",
    "S08": "Complete case partitions of error words on 1-3 qubits and of families of codes on 1-3 qubits (4 in thorough).",
    "S09": "Complete case partitions of families of generators on 2-4 qubits (5-7 in thorough).",
    "D01": "1-4 qubits (6 in thorough) and several epsilons for the gates, all values of every random draw; the number of rounds for any register size and any epsilon.",
    "D02": "1-3 qubits (4 in thorough), 1-3 trials and any number of trials (symbolic), all values of every draw and every outcome.",
    "D03": "1-3 qubits, 1-2 trials and any number of trials, several splits of the parameter vector, whose entries are unknown.",
    "F01": "Stabilizer codes of 2-4 qubits with k = 1, 2; noise of 1-2 operators with unknown entries; encoder and correction as unknown operators (their meaning is S04 and S08).",
    "F02": "The program for operators of unknown number, entries, dimensions and qubit numbers; the stabilizer entry point for codes of 2-5 qubits with k = 1, 2 under unknown noise. That the solver solves its program is trusted.",
    "X02": "Definite assignment assumes each loop runs at least once and reports an unassigned path only when values the code itself names select it; names exported by installed packages are read from their source and stubs. Types of arguments are known only where the library itself passes them.",
    "C04": "Group counts 1-4 (quick) and 1-8 (thorough), with symbolic group sizes.",
}
NA = {
    "N01": "Global optimality of a numerical search quantifies over the landscape of a nonconvex function; no static argument in reach bounds it (the wiring of the search is O01-O03).",
    "N02": "A statement about the distribution of random circuits; the source fixes the sampling scheme but no static argument bounds its moments.",
    "N03": "Floating-point accuracy of LAPACK/BLAS-based routines; the checks read arithmetic as exact.",
}
