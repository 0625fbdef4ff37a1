"""Single source of the property texts; `python3 meta/gen.py` rewrites properties.jsonl and MANIFEST.json from it."""
I, H, S, P, CF = 'inputs', 'histories', 'schedules', 'programs', 'configurations'


def m(name, where):
    return {'name': name, 'where': where}


PROPS = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                     why_tests_cant=why, anchors={'files': ['src/' + f for f in files], 'mechanism': [m(*x) for x in mech]})
    if observe:
        PROPS[id]['anchors']['observe_at'] = observe


prop('C01', 'A single query is answered with the stored item at the queried column',
     'Processing one query returns the sum, over every column of the first database row, of that column\'s ciphertext '
     'multiplied by the selector the query\'s encrypted index bits induce for that column, read before the query changes the database. '
     'With an index encrypting column j the response therefore decrypts to the item stored in column j, for reads and for writes.',
     [I, H], 'every database width, content, query and parameter set', 'the tests use 8 or 16 columns, one parameter set and an '
     'all-fresh database; a column, level or row index mixed up elsewhere, or a response computed after the update, is not sampled',
     ['oram.rs', 'decision_tree.rs', 'rlwe.rs', 'rgsw.rs'],
     [('process_one', 'src/oram.rs'), ('process_one_mt', 'src/oram.rs'), ('decomposed_rlwe_to_rgsw', 'src/rlwe.rs')])
prop('C02', 'A single query rewrites exactly the addressed item',
     'After one query every column of the first row holds its old ciphertext plus the column\'s selector times (new value minus old), '
     'where the new value is the query\'s data if the encrypted operation is a write and the old ciphertext if it is a read. '
     'A read leaves every item as it was, a write replaces only the addressed item, and no other row changes.',
     [I, H], 'every database, query and parameter set', 'tests write one item once and read few items back',
     ['oram.rs', 'rgsw.rs'], [('update_db_mt', 'src/oram.rs'), ('rw', 'src/oram.rs'), ('cmux_with_buf', 'src/rgsw.rs')])
prop('C03', 'Parallel queries: responses from the pre-state, one combined update',
     'Processing several queries together returns, in the order of the queries, the response each would get against the database as it was before the call. '
     'Afterwards every column j of the first row holds old + (sum over the queries of selector_j) * (sum over the queries of selector_j times the read/write value, minus old), '
     'and other rows are unchanged.',
     [I, H, S], 'every number and mix of queries, every database, every schedule of the worker threads',
     'tests use a few queries to distinct indices with one schedule', ['oram.rs'],
     [('process_multi', 'src/oram.rs')])
prop('C04', 'Batched queries: query r is answered from row r, in order',
     'Processing a batch of one query per row returns exactly one response per row, the r-th being the answer of the r-th query against row r as it was before the call. '
     'A batch whose size differs from the number of rows is rejected.',
     [I, H, S], 'every database shape, batch and hash table', 'tests use one shape', ['oram.rs'], [('process_batch', 'src/oram.rs')])
prop('C05', 'Batched queries leave every copy of an item equal and up to date',
     'After a batch each location first receives its row\'s query update, and then every location the hash functions assign to an item holds one and the same ciphertext: '
     'the first copy corrected, at every location of that item, by that location\'s selector times that row\'s write flag times the difference between the updated copy and the first copy. '
     'So a write through any one copy reaches all copies and reads change nothing.',
     [I, H, S], 'every database shape, batch, number of hash functions and table', 'tests read back at most one written item',
     ['oram.rs', 'naive_hash.rs'], [('correct_consistency', 'src/oram.rs'), ('process_batch', 'src/oram.rs')])
prop('C06', 'Encrypted index bits select exactly the indexed slot',
     'Demultiplexing n encrypted bits yields 2^n ciphertexts in which slot j is the input times the product over the bits of b_k or 1-b_k, the first bit deciding the upper half and '
     'a bit encrypting 1 selecting the lower half. The client\'s encryption of an index, one bit per base-two digit of the domain size, is the encoding that makes slot i the selected one.',
     [I, CF], 'every bit count, index, and ciphertext', 'tests enumerate at most 3 or 4 bits', ['decision_tree.rs'],
     [('demux', 'src/decision_tree.rs'), ('bit_decomposed_rgsw', 'src/decision_tree.rs')])
prop('C07', 'Client queries address the hashed column of every requested index',
     'A batch of requested indices produces one query per row, row r\'s query encrypting the column to which the mapping assigns row r and column 0 with a read operation when the row is unused. '
     'A write batch carries the given plaintext and the write operation in the assigned rows; single-index queries are the first row of a one-element batch.',
     [I, CF], 'every index set, shape and hash table', 'tests only use a few indices and check the server result', ['oram.rs'],
     [('gen_read_query_batch', 'src/oram.rs'), ('gen_write_query_batch', 'src/oram.rs')])
prop('C08', 'The hash functions place every item copy at its own location',
     'The tables are a permutation of the output domain, whose size is the number of hash functions times the number of items, so no two (function, item) pairs share a location. '
     'The checked lookup returns nothing exactly for an out-of-range function or item and otherwise the plain lookup\'s value, and the two-dimensional form is quotient and remainder by the row width.',
     [I, CF], 'every number of functions, domain size, shuffle outcome and input', 'tests look at one small table', ['naive_hash.rs'],
     [('new', 'src/naive_hash.rs'), ('hash', 'src/naive_hash.rs'), ('checked_hash', 'src/naive_hash.rs')])
prop('C09', 'Assigning indices to rows never drops or overwrites an index',
     'For a list of distinct indices the row assignment has exactly one entry per index, in a row one of the hash functions gives for that index, holding that function\'s column and the index itself. '
     'No two indices share a row, and when no row is left for an index the assignment fails loudly instead of omitting it.',
     [I, CF], 'every index list, hash table and width', 'tests map one index; conflicts depend on the random table', ['naive_hash.rs'],
     [('hash_to_mapping', 'src/naive_hash.rs')])
prop('C10', 'Database set-up stores every item at all of its locations',
     'The generated database has the requested number of rows and columns, and each location assigned to item i by any hash function holds an encryption of the i-th returned plaintext. '
     'There are as many plaintexts as items, the set-up uses one key for the negated-key ciphertext and the data, and it rejects shapes that do not match the hash domain.',
     [I, CF], 'every shape, item count and hash table', 'tests use few items, far fewer than the replication limit', ['oram.rs'],
     [('gen_dummy_database', 'src/oram.rs'), ('setup_random_oram', 'src/oram.rs')])
prop('C11', 'The server\'s memory access and control flow ignore ciphertext contents',
     'While processing queries the server\'s branches, loop bounds, array indices and shift amounts depend only on public sizes, parameters and hash tables, never on any value stored in a ciphertext. '
     'Which columns are read and rewritten is therefore the same for every queried index and operation.',
     [I, H], 'every query, database content and execution', 'obliviousness is a relation between executions that no single run shows', ['oram.rs', 'rlwe.rs', 'rgsw.rs', 'decision_tree.rs'],
     [('process_one', 'src/oram.rs'), ('process_multi', 'src/oram.rs'), ('process_batch', 'src/oram.rs')])
prop('C12', 'The server never holds or uses a secret key or encryption randomness',
     'The server\'s state and the queries sent to it contain no secret key, and no code reachable from the server\'s query processing uses a secret key or draws encryption or key-generation randomness. '
     'Only the explicit database inspection, which is handed a key by its caller, decrypts.',
     [P, I], 'every path through the query processing', 'tests hold client and server in one process', ['oram.rs'],
     [('Server', 'src/oram.rs')])
prop('C13', 'Read and write queries have the same shape for every index',
     'A query is made of the same number of ciphertexts with the same parameters whatever the index, operation or data, and every one of them is freshly encrypted; '
     'index, operation and data influence only what is encrypted.',
     [I], 'every index, operation, plaintext', 'tests never compare two queries', ['oram.rs', 'decision_tree.rs'],
     [('make_read_query', 'src/oram.rs'), ('make_write_query', 'src/oram.rs')])
prop('C14', 'Every encryption uses the configured noise and a fresh draw',
     'Each ciphertext a client produces (queries, data, gadget rows, key-switching and negated-key material, features) adds noise of the configured standard deviation '
     'drawn from the context\'s encryption generator, with its own draws for mask and noise, never reused between ciphertexts, rows or levels.',
     [I, CF, H], 'every encryption entry point and parameter set', 'wrong or repeated noise still decrypts, so functional tests pass', ['rlwe.rs', 'rgsw.rs', 'lwe.rs', 'oram.rs', 'decision_tree.rs'],
     [('encrypt_rlwe', 'src/rlwe.rs'), ('encrypt_constant_rgsw', 'src/rlwe.rs')])
prop('C15', 'Secure seeding draws every generator seed from system entropy',
     'With secure seeding on, each of the context\'s three generators gets its own seed drawn from the system\'s entropy source, and no seed is shared or constant. '
     'With it off all three use the fixed seed zero, so two contexts with equal parameters produce equal randomness.',
     [CF], 'both seeding modes and both entropy-source cases', 'tests cannot observe seed quality', ['context.rs'], [('new', 'src/context.rs')])
prop('C16', 'Every parameter reaches the quantity it names',
     'Each cryptographic parameter given on the command line or in a parameter value sets exactly the context field and reported figure of the same name: standard deviation, polynomial size, '
     'and the base and level count of the default, key-switching and negated-key decompositions, plus plaintext modulus and seeding. Command-line defaults equal the library defaults.',
     [CF], 'every parameter value', 'tests mostly run with the defaults, where several fields share a value', ['context.rs', 'params.rs', 'cli.rs', 'main.rs', 'decision_tree.rs'],
     [('new', 'src/context.rs'), ('main', 'src/main.rs')])
prop('C17', 'A parameter file expands to the full ordered product',
     'A list of parameter groups expands, group by group in file order, to every pairing of a database configuration with a cryptographic parameter set of the same group, '
     'database configuration outermost, each value copied unchanged and nothing paired across groups.',
     [CF, I], 'every parameter list', 'no test covers the expansion', ['params.rs'], [('from_input_params_list', 'src/params.rs')])
prop('C18', 'The command line runs the requested experiment and reports it faithfully',
     'Mode 0, 1 or other selects the single, parallel or batched experiment with that mode\'s own sizes; a readable parameter file replaces all command-line parameters. '
     'A dry run performs no set-up or query processing and every run, dry or not, prints one record with as many fields as the header, in header order.',
     [CF, P], 'every argument combination', 'the binary has no tests', ['main.rs', 'cli.rs'], [('main', 'src/main.rs')])
prop('C19', 'Ciphertext arithmetic is coefficient-wise linear arithmetic',
     'Adding, subtracting, negating, copying and multiplying ciphertexts by a plaintext act on the mask and the body of the target exactly as the polynomial operation names, leave the other operand unchanged, '
     'and touch nothing else; zero and plaintext-filled ciphertexts are the trivial encryptions.',
     [I], 'every ciphertext and polynomial size', 'tests sample random ciphertexts and check after decryption with tolerance', ['rlwe.rs', 'rgsw.rs'],
     [('update_with_add', 'src/rlwe.rs')])
prop('C20', 'External product and multiplexer follow the gadget equation',
     'The external product adds to its output the gadget decomposition of the input (mask and body, at the selector\'s own base and level count) multiplied with the selector\'s rows, '
     'and the multiplexer sets its output to zero-case + selector * (one-case - zero-case), overwriting or accumulating as documented without changing its inputs.',
     [I, CF], 'every selector, operand and decomposition', 'tests use 0/1 selectors and default decompositions', ['rgsw.rs'], [('external_product', 'src/rgsw.rs'), ('cmux', 'src/rgsw.rs')])
prop('C21', 'RGSW encryption places the message at the gadget positions',
     'An RGSW encryption of a message has, for every level, one row encrypting minus the message times the key and one encrypting the message, both scaled by q / base^level with the base and level count of the output ciphertext, each with a fresh mask and noise. '
     'The negated-key encryption and the constant and polynomial forms agree with this for their message.',
     [I, CF], 'every message, decomposition and key', 'tests use matching default parameters', ['rlwe.rs', 'rgsw.rs'], [('encrypt_rgsw', 'src/rlwe.rs'), ('neg_gsw', 'src/rlwe.rs')])
prop('C22', 'Converting RLWE levels to RGSW yields a valid RGSW ciphertext',
     'From one RLWE ciphertext per decomposition level, the conversion builds the RGSW ciphertext whose message row at each level is that ciphertext and whose key row is its product with the negated-key ciphertext, in that order, at the default decomposition.',
     [I, CF], 'every level count and ciphertext', 'tests run one parameter set', ['rlwe.rs'], [('decomposed_rlwe_to_rgsw', 'src/rlwe.rs'), ('to_rgsw', 'src/rlwe.rs')])
prop('C23', 'Key switching preserves the message under the new key',
     'A key-switching key from one key to another encrypts, per level, the old key scaled by the gadget factor of the key-switching base, and applying it to a ciphertext gives the body minus the decomposed mask times those rows, a ciphertext of the same message under the new key.',
     [I, CF], 'every key pair, ciphertext and key-switching decomposition', 'tests use one decomposition', ['rlwe.rs', 'lwe.rs'], [('keyswitch_ciphertext', 'src/rlwe.rs')])
prop('C24', 'Substitution and trace compute the named automorphisms',
     'Substituting X by X^k sends the coefficient of X^i to X^(ik) with the negacyclic sign, the substitution key set holds one key for every automorphism the trace and expansion use, and the trace applies them in turn, '
     'so only the coefficients fixed by all automorphisms remain, multiplied by the polynomial size.',
     [I, CF], 'every polynomial size, exponent and ciphertext', 'tests check single polynomials with default sizes', ['rlwe.rs'], [('subs', 'src/rlwe.rs'), ('trace1', 'src/rlwe.rs')])
prop('C25', 'Comparison polynomials encode the comparison for every operand',
     'Multiplying an encryption of X^a by the comparison polynomial of b gives constant term 1 when the named comparison of a and b holds and 0 otherwise, for all a and b below the polynomial size, and the not-gate maps an encoded bit to its complement.',
     [I, CF], 'all pairs of operands at every polynomial size', 'tests sample few operands', ['rlwe.rs'], [('less_eq_than', 'src/rlwe.rs'), ('not_in_place', 'src/rlwe.rs')])
prop('C26', 'Encoding and decoding are inverse for every plaintext and modulus',
     'Encoding puts the plaintext in the top bits of the torus, decoding rounds to the nearest representable value and undoes encoding for every plaintext below the modulus and every perturbation below half a step; '
     'the ternary encoding maps minus one, zero and one likewise, and out-of-range values and non-power-of-two moduli are rejected.',
     [I, CF], 'every modulus and plaintext', 'tests use a few moduli and values', ['codec.rs'], [('encode', 'src/codec.rs'), ('decode', 'src/codec.rs')])
prop('C27', 'LWE conversions keep the selected coefficient',
     'Extracting an LWE ciphertext from an RLWE ciphertext gives the mask and body whose phase under the flattened key is the selected (by default the constant) coefficient, and converting between key forms keeps coefficient order. '
     'Converting an LWE ciphertext back to RLWE gives (0, b) minus, for every mask coefficient a_i and every level l of the context\'s key-switching decomposition, digit l of a_i times the message row of level l of key i, where key i is the RGSW encryption of key coefficient i. All for every dimension and decomposition.',
     [I, CF], 'every ciphertext, key, dimension and decomposition', 'tests use random samples with the default dimension', ['lwe.rs', 'rlwe.rs'], [('fill_with_const_sample_extract', 'src/lwe.rs'), ('conv_lwe_to_rlwe', 'src/lwe.rs')])
prop('C28', 'Noise measurement compares phase with the encoded plaintext',
     'The noise reported for an RLWE ciphertext is log2 of the largest absolute difference, over all coefficients and on the torus, between the decrypted phase and the encoded plaintext (the plaintext as given, encoded by the ternary encoder, or encoded by the given codec). '
     'The noise reported for an RGSW ciphertext is the mean over its levels of the noise of the message row of that level (row 2l+1) against the plaintext q/base^(l+1).',
     [I, CF], 'every ciphertext, plaintext and codec', 'tests only check that noise is small', ['rlwe.rs', 'rgsw.rs'], [('compute_noise_encoded', 'src/rlwe.rs'), ('compute_noise_rgsw1', 'src/rgsw.rs')])
prop('C29', 'Clear tree evaluation follows the comparison at every node',
     'Evaluating a tree on a feature vector goes left when the node\'s feature is at most its threshold and right otherwise, all the way to one leaf, and returns that leaf\'s label. Missing children contribute nothing.',
     [I, P], 'every tree and feature vector', 'tests use four small trees', ['decision_tree.rs'], [('eval', 'src/decision_tree.rs')])
prop('C30', 'Encrypted tree evaluation accumulates the label bits of the chosen leaf',
     'The encrypted evaluation multiplies the path indicator by the node\'s choice bit on the left and by its complement on the right, and adds the indicator of each leaf to output bit k exactly when bit k of the leaf\'s label is set, '
     'with enough output bits for the largest label; recomposition reads the bits least significant first.',
     [I, P], 'every tree shape, label and choice bits', 'tests use four small trees', ['decision_tree.rs'], [('eval_enc_node', 'src/decision_tree.rs'), ('decrypt_and_recompose', 'src/decision_tree.rs')])
prop('C31', 'Indexing, flattening and encrypted-tree construction agree on node order',
     'Assigning indices, flattening and building the encrypted tree all visit internal nodes in the same depth-first, left-before-right order, so the i-th flattened node has index i and receives the i-th choice bit.',
     [I, P], 'every tree shape', 'tests use a few shapes', ['decision_tree.rs'], [('fix_index', 'src/decision_tree.rs'), ('flatten', 'src/decision_tree.rs'), ('new', 'src/decision_tree.rs')])
prop('C32', 'Tree statistics, generation and truncation match the tree',
     'Counts of leaves, internal nodes and depth, the maximum feature index and maximum label are those of the tree; a generated tree of depth d is complete with exactly one leaf labelled 1; '
     'truncation removes exactly the subtrees whose leaves are all zero and keeps every other node\'s contents.',
     [I, P], 'every tree', 'tests use a few shapes', ['decision_tree.rs'], [('count_leaf', 'src/decision_tree.rs'), ('trunc_tree', 'src/decision_tree.rs')])
prop('C33', 'Features and thresholds are compared at matching levels and positions',
     'A feature v is encrypted, for every level in order, as X^v scaled by q / (base^level * polynomial size); for every node the levels of that node\'s feature are compared with that node\'s threshold and expanded to one RGSW choice bit, in node order.',
     [I, CF, P], 'every feature vector, tree and parameter set', 'tests use few features and one parameter set', ['decision_tree.rs', 'rlwe.rs'], [('encrypt_feature_vector', 'src/decision_tree.rs'), ('compare_expand', 'src/decision_tree.rs')])
prop('C34', 'Query processing is free of deadlock and buffer races',
     'Worker threads never wait for a lock while holding another in conflicting order or nest the same lock, every scratch buffer is used by one thread at a time under its lock, and no parallel task writes data another task of the same phase reads or writes.',
     [S], 'every schedule and thread count', 'a test run shows one schedule', ['oram.rs'], [('process_multi', 'src/oram.rs'), ('process_batch', 'src/oram.rs')])
prop('C35', 'Rejected requests leave the database untouched',
     'Shape and size checks of the query processing and set-up run before anything is modified: a batch of the wrong size, a query with the wrong number of index bits, or an out-of-range feature fails without changing stored data.',
     [I, H], 'every malformed request', 'tests only send well-formed requests', ['oram.rs', 'decision_tree.rs'], [('process_batch', 'src/oram.rs')])
prop('C36', 'A tree simulation evaluates every feature vector with one key set',
     'The simulation encrypts each feature vector and evaluates it homomorphically under the same key, in input order whether parallel or not, checks each result against clear evaluation, and reports one prediction per input and the parameters used.',
     [I, S], 'every model, feature list and mode', 'tests run small models', ['decision_tree.rs'], [('simulate', 'src/decision_tree.rs')])
prop('C37', 'Database inspection decrypts every item in place',
     'Inspecting the database with the key returns, for every row and column in order, the item\'s decrypted coefficients packed least significant first into at most 64 bits, with the server\'s own codec, and changes nothing.',
     [I, CF], 'every database', 'tests use one shape', ['oram.rs', 'utils.rs'], [('decrypt_db', 'src/oram.rs'), ('pt_to_lossy_u64', 'src/utils.rs')])
prop('C38', 'Unsafe code is confined to write-before-read transform buffers',
     'The only unsafe operations are views of a scratch buffer as uninitialised memory that are handed directly to a forward transform which fills them completely, '
     'and no other raw pointer, uninitialised or transmuted memory is used. Every such buffer has exactly the transform\'s size.',
     [P, I], 'every path', 'undefined behaviour is not observable in passing tests', ['rlwe.rs', 'rgsw.rs'], [('into_fourier', 'src/rlwe.rs')])
prop('C39', 'Shared helpers: transpose, logarithm and constant multiplication',
     'Transposing a rectangular table exchanges rows and columns without losing or reordering entries, the logarithm helper is exact on powers of two and the floor otherwise, and multiplying a plaintext list by a constant scales each coefficient.',
     [I], 'every table and value', 'tests use one small table', ['utils.rs'], [('transpose', 'src/utils.rs'), ('log2', 'src/utils.rs')])
