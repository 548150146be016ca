"""What each check establishes (used for MANIFEST.json and the evidence)."""
TRUSTED = ['clang 18 (parser, -ast-dump=json)', 'cppvc (extraction and verification-condition generator, /verif/cppvc)', 'z3, cvc5',
           'the induction schemes of the lemma lists (over list positions, over the acyclic order of nodes, over vtree depth)',
           'libsdd, libgmp, the C++ standard library (modelled by their documented behaviour)']
COMMON = ['machine integers are treated as mathematical integers (no overflow)',
          'partial correctness: termination is not claimed by the proof obligations unless a decreases clause is reported',
          'inputs are well-formed PSDDs: at least one element per decision node, primes and subs at the left and right child of the vtree position, acyclic, identifiers distinct per manager, parameters not negative']
REALS = 'client code of PsddParameter is verified over non-negative reals (the parameter class itself is property C01)'
def m(level, proved, bounded, assume=()):
    return dict(level=level, proved=proved, bounded=bounded, assume=list(assume))
META = {
 'C01': m('other', 'Contracts of the constructors, CreateFromDecimal/CreateFromLog, +, *, /, +=, *=, /=, ==, !=, <, >, hash_value of PsddParameter over extended reals (finite, +inf, -inf, nan): exact value of each operation, both forms the same object state, comparison is a function of the current value, agrees with the order of the values, equal implies equal hash (lemmas over the contracts).',
          'rounding of doubles (the contracts are over the reals with the laws of exp/log): pairs and operation sequences compared with exact logarithm arithmetic',
          ['doubles are extended reals: rounding is not modelled', 'x += x (operand aliasing the target) is not covered by the contract', 'the conversion double to uintmax_t is injective on the magnitudes used (|x|<2^63), as on x86-64']),
 'C02': m('proof', 'Contracts of the node constructors (content, canonical element order, hash), of the unique table comparator (equal content exactly) and GetUniqueNode (representative with the requested content, one per content), and of the manager requests on top of them.',
          'random request histories to one manager against a content-keyed table', ['std::unordered_set finds an element equal under the comparator when the hashes agree', REALS]),
 'C03': m('proof', 'Contracts of SerializePsddNodes (roots, root) and GetCoveredPsddNodes: exactly the reachable nodes, each once, roots first, parents before children; for all graphs and root lists.',
          'random PSDDs and root lists against a reference traversal'),
 'C04': m('proof', 'Contracts of psdd_node_util::Evaluate (node list and root): for every well-formed PSDD, mask and assignment the result is the recursively defined value of the root (loop invariants over all nodes and elements, all sizes).',
          'floating-point accuracy: random PSDDs, masks and assignments against direct recursion', [REALS]),
 'C05': m('proof', 'Contracts of IsConsistent (node list, root, full assignment, the virtual per-kind entry points) and SetActivationFlag: exactly the compatible nodes are marked, the answer is compatibility of the root, marks are cleared; lemma: compatible exactly when a supported completion exists.',
          'the map overload: random PSDDs and partial assignments against enumeration of the support'),
 'C06': m('proof', 'Contract of psdd_node_util::ModelCount: the result is the recursively defined count over unbounded integers.', 'large shared structures against an independent exact count'),
 'C07': m('proof', 'Contracts of GetMPESolution (node list, root): the returned probability is the maximum recursion of the root, the returned assignment follows a maximal element at every node (any completion that is optimal below the queue of the second pass is optimal at the root) and no cached value is left; lemmas: for deterministic PSDDs no assignment exceeds that maximum, and the returned assignment has it.',
          'random PSDDs with ties and zeros against enumeration', [REALS, 'determinism: at most one prime of a decision is compatible with an assignment']),
 'C08': m('proof', 'Contract of GetMarginals: for every variable below the root both reported values are the derivative recursion of the distribution, which the lemmas show to equal evaluating the single-variable evidence on normalised PSDDs.', 'random normalised PSDDs against enumeration', [REALS]),
 'C09': m('proof', 'Contracts of MultiplyWithCache, the computation cache and PsddManager::Multiply: value of the result times the constant is the product for the arbitrary assignment; no node exactly for the zero product; local parameters sum to one (positivity lemmas).', 'random pairs of PSDDs against pointwise products', [REALS, 'vtree positions are less than 2*variables-1 (libsdd)']),
 'C10': m('proof', 'Contracts of ConvertSddToPsdd, FromSdd (both forms), TagSddVtreeWithPsddVtree, SerializeVtree and SubVtreeByVariables: for the arbitrary assignment the result has value one exactly when the SDD holds, and zero otherwise, at the requested vtree position; the false SDD gives no node.', 'random SDDs (trimmed or not, whole vtree or sub-vtree) against enumeration',
          [REALS, 'libsdd SDDs are partitions: exactly one prime of a decision holds, primes are not constant, some sub is not false, elements sit below the node', 'the vtrees have the same shape (a correspondence of their nodes exists)', 'finite sets of variables are determined by their size and inclusion']),
 'C11': m('proof', 'Contracts of GetTrueNode, NormalizePsddNode (both forms), GetConformedPsddDecisionNode and LoadPsddNode: the result sits at the requested position, is well-formed there and has the value of the source for the arbitrary assignment.',
          'random lifts, conforming constructions and loads against enumeration and a structural check', [REALS]),
 'C12': m('proof', 'Contract of LearnPsddParameters (and ResetDataCount, SetActivationFlag): counts of reached contexts are the sums over the examples, every parameter is the smoothed relative frequency, counts and flags are cleared.',
          'random structures and data sets against reference counts, repeated calls', [REALS, 'smoothed counts of every visited node are positive; alpha not negative']),
 'C13': m('proof', 'Contracts of SampleParametersForMultiplePsdds and SampleParameters (structure kept, local parameters of every node nonnegative with sum one) and of DirectSample per node kind (supported assignment, branch chosen on its sub-interval).',
          'random structures and root lists, boundary draws', [REALS, 'the gamma draws are positive', 'the uniform draw is in [0,1)']),
 'C14': m('proof', 'Contracts of WritePsddToFile (after the header one line per node below the root, children before parents, each with its identifier, vtree position and content; no identifier is left on the nodes) and of PsddManager::ReadPsddFile (from such a file: a node at the corresponding position whose kinds, literals, variables, primes and subs are those of the written PSDD and whose parameters are the printed ones).',
          'random PSDDs (zero parameters included) written and read back; the printed precision',
          [REALS, 'reading a written file yields its words line by line (strings as sequences of words; streams as cursors)', 'reading the text of an integer yields the integer', 'the file written is the file read, and the vtree of the reading manager corresponds to that of the written PSDD']),
 'C15': m('proof', 'Contracts of the CNF constructor (the clauses of the file are its clause lines in order, their literals the numbers of the line up to the first zero), ConstructSddFromCnf (the SDD holds exactly where every clause has a true literal) and CNF::Compile (the PSDD has value one exactly where the SDD holds, no node exactly for an unsatisfiable CNF), with a lemma on the numbered leaves of the vtree.',
           'random clause lists and file layouts against enumeration (also Evaluate and the writers of the class)',
           [REALS, 'file streams and string streams as cursors over their content (getline, >>, operator bool)', 'the SDD operations by their documented meaning; a canonical SDD that is not false has a model', 'the literals of the clauses are variables of the manager']),
 'C16': m('proof', 'Contract of ConvertPsddNodeToSddNode: the SDD has a model exactly where the support relation holds, after renaming; SDD operations by their documented meaning.', 'random PSDDs and renamings against enumeration', ['sdd_conjoin, sdd_disjoin, sdd_manager_literal by their documented meaning']),
 'C17': m('proof', 'Contracts of SerializeVtree, CopyVtree (both forms), ProjectVtree, VariablesUnderVtree, LeftToRightLeafTraverse, SubVtreeByVariables: each node below the root once, parents first; copies of the same shape with (renamed) leaves; projections have exactly the requested variables in order and nesting; the sub-vtree is the one with exactly these variables; the data fields are cleared.', 'random vtrees, subsets and renamings against reference structures',
          ['new_leaf_vtree and new_internal_vtree return fresh nodes', 'finite sets of variables are determined by their size and inclusion', 'ProjectVtree: at least one requested variable is below the root']),
 'C18': m('other', 'The manager operations the compiler is built from are under contract (C09, C11, C21); the compiler itself is not.', 'random networks, strategies and collection frequencies against enumeration'),
 'C19': m('proof', 'Contracts of AddRecord, ReadFile and WriteFile: adding a record adds one to its multiplicity and changes no other; after reading, the multiplicity of every record is the number of its rows, whatever was there before, and the size is the number of rows; the written file has one line per copy of every record, with its bits as fields; lemma: a data set that is written and read has the same multiplicities.',
          'random record histories, reads and writes against a multiset (ASan, UBSan); the JSON reader; a fresh data set is empty',
          ['the CSV parser returns the comma-separated fields of each line (property C20)', 'atoi of the text of an integer is that integer', 'rows have one length of at least one and less than 65536 fields', 'an output stream is written through; strings are sequences of fields and separators']),
 'C20': m('other', 'No contract is attached yet.', 'random byte strings against a reference field splitter (ASan, UBSan)'),
 'C21': m('proof', 'Contracts of GetCoveredPsddNodes, DeleteUnusedPsddNodes and DeletePsddNodesWithoutFlagIndexes of the unique table: exactly the nodes to keep stay, in the table they were, unchanged; together with GetUniqueNode and the comparator.',
          'random construction and collection histories against a content-keyed table'),
 'C22': m('proof', 'Frame and residue postconditions of every function that writes scratch fields of nodes (IsConsistent, GetMPESolution, GetMarginals, ConvertPsddNodeToSddNode, WritePsddToFile, LoadPsddNode, SampleParameters, LearnPsddParameters, the vtree tags of the SDD conversion) and frames of those that write none (Evaluate, ModelCount, GetPsddSize, DirectSample, Multiply): scratch fields of every node are as before, no other field of an existing node changes. The answers are functions of the contents (the contracts of C03-C16), so they do not depend on earlier calls.',
          'random sequences of public operations on shared nodes against fresh copies', [REALS, 'SetActivationFlag (the helper that marks nodes for DirectSample-style callers) leaves its marks by design']),
 'C23': m('other', 'Contracts of Evaluate and GetMarginals, which the tool uses.', 'the built tool on random PSDDs and CNF evidence against enumeration'),
 'C24': m('proof', 'Contracts of ConnectedGraph (two disjoint parts with no edge between them; the first is not empty, and is everything only for a connected graph), RemoveNode, VtreeFromGraph (each variable of the graph once; below every node the two sides have no common variable, and an edge between them only where one variable of a connected part is split off) and MinFillVtree::ConstructVtree (its graph is the interaction graph of the factor scopes, its variables those of the network).', 'random graphs and elimination orders (stand-in for the absent library)',
          ['the elimination order of libhtd is a permutation of the vertices added, which are numbered from one', 'new_leaf_vtree and new_internal_vtree return fresh nodes', 'finite sets are determined by their size and inclusion', 'the factor scopes name variables of the network', 'jointree_vtree.cpp and hypergraph_decomposition_vtree.cpp (libhtd, libkahypar) are not covered']),
}

# which check caught which planted bug, and how
CAUGHT = {
 'C08-shared-sub': 'proof (GetMarginals: mass of the variable) and search',
 'C10-true-at-subvtree': 'proof (FromSdd: a node of the table at the position) and search',
 'C12-learn-twice': 'proof (LearnPsddParameters: counts cleared so far) and search',
 'C21-flag-collection': 'proof (DeleteUnusedPsddNodes: positions so far) and search',
 'C01-overflow-in-sum': 'search (the proof treats doubles as extended reals, so an overflow inside the logarithm is outside it)',
 'C02-prefix-order': 'proof (comparator: the value of the function) and search',
 'C03-two-roots': 'proof (primes and subs after their parents) and search',
 'C05-last-variable': 'proof (IsConsistent: compatibility with variables 1..size) and search',
 'C06-count-truncated': 'search (the changed code calls a gmp function that is not modelled, so the contract is not attached)',
 'C09-cached-null': 'proof (loop invariant: the products so far) and search',
 'C11-load-padding': 'proof (LoadPsddNode: the nodes so far have a node in the table) and search',
 'C13-boundary-draw': 'proof (DirectSample of the top node: ensures) and search',
 'C14-tiny-parameter': 'proof (the parameters so far) and search',
 'C15-tautology': 'proof (loop invariant: the clauses so far) and search',
 'C16-shared-sub': 'proof (loop invariant: the disjunction so far) and search',
 'C17-projection-mark': 'proof (no data is left below the root) and search',
 'C18-repeated-factor': 'search',
 'C19-json-last': 'search (the JSON reader is not under contract)',
 'C20-field-table': 'search under ASan (the parser is not under contract)',
 'C23-variable-names': 'search (the command itself is not under contract)',
 'C24-isolated-vertex': 'search (the new loop has no invariant, so the contract is not attached)',
}

