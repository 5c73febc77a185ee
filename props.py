"""What each check runs: cases per build for the two tiers, and what the evidence says about them."""
K = 1000
M = 1000 * K
COMMON = [
    'The oracles in harness/src are independent of the library code and right',
    'rustc, the standard library and the allocator behave as documented',
    'Cases are sampled: the property was decided on the executions observed, not on all',
]


def native(quick, thorough):
    return {'quick': {'checked': quick, 'release': quick}, 'thorough': {'checked': thorough, 'release': thorough}}


PROPS = {
    'C01': dict(
        hooks='optional',
        # the C01 monitor contains all the others: compile time dominates
        opt={'checked': 0, 'release': 1, 'asan': 0},
        quick={'checked': 150 * K, 'release': 150 * K, 'asan': 80 * K, 'miri': 360},
        thorough={'checked': 3 * M, 'release': 3 * M, 'asan': 1500 * K, 'miri': 12 * K},
        rule='A case is one generated history of calls (dense, sparse, wrapped and borrowed vectors, words, enumeration, '
             'products, exp/log) with operands of random stored sizes; half use heap-owning scalars, most of those with a panic '
             'injected at a random scalar operation, a fifth use a basis or a vector type that misreports its dimensions. Non-trivial: it '
             'created scalars or keys and ran to its end or to the injected panic. Distinct: by hash of everything chosen.',
        must_see=['injected panics', 'heap scalars followed', 'operations over misreporting bases', 'tensor chain operations',
                  'memory balances checked', 'iterators with a false size hint',
                  'operations on misreporting vectors'],
        assumptions=COMMON + ['Running out of memory or stack is not undefined behaviour; it is recorded and skipped'],
    ),
    'C02': dict(
        hooks=False, **native(400 * K, 8 * M),
        rule='A case builds three dense vectors over a random basis, scalar type and sizes, applies up to a dozen linear operations '
             'and compares every coefficient of every vector with a reference model after each. Non-trivial: some operand had a '
             'non-zero coefficient. Distinct: by hash of basis, scalar type, operations and operands.',
        must_see=['add', 'sub', 'uminus', 'scalar_lmultiply', 'scalar_rdivide', 'add_scalar_ldivide', 'sub_scalar_rmultiply', 'equality'],
        assumptions=COMMON,
    ),
    'C03': dict(
        hooks=False, **native(500 * K, 10 * M),
        rule='A case is a history of map operations (build, read, update, insert, erase, clear, swap, copy, resize, single-key '
             'updates, mixed with arithmetic) on three dense vectors, compared with a finite map with default zero after each step. '
             'Non-trivial: at least one coefficient was written. Distinct: by hash of the history.',
        must_see=['from_iterator', 'insert', 'insert_single', 'erase', 'get_mut', 'swap', 'resize', 'degree', 'sub_scalar_divide'],
        assumptions=COMMON,
    ),
    'C04': dict(
        hooks=False, **native(300 * K, 6 * M),
        rule='A case is a history on three sparse vectors (keys: small and full-range integers, strings, colliding hashes) compared '
             'with a finite map and with dense vectors over the same basis after each step; stored support, iteration and equality '
             'are observed. Non-trivial: at least one term was stored. Distinct: by hash of the history.',
        must_see=['cancelled terms', 'dense/sparse comparisons', 'from_iterator', 'erase', 'swap', 'to_owned', 'iterated items', 'near-equality'],
        assumptions=COMMON,
    ),
    'C05': dict(
        hooks=False, **native(350 * K, 7 * M),
        rule='A case applies one history to wrapped vectors and to bare vectors in parallel and compares all coefficients, element '
             'access, equality and round trips after each step. Non-trivial: at least one coefficient was written. Distinct: by hash '
             'of wrapper type and history.',
        must_see=['wrapped get/get_mut', 'round trips', 'equality', 'chained calls'],
        assumptions=COMMON,
    ),
    'C06': dict(
        hooks=False, **native(1500 * K, 20 * M),
        rule='A case picks one of 91 alphabet widths and a word, pair, index run or degree boundary near a carry, boundary or at '
             'random, and compares the library with shortlex ranks computed in 128-bit arithmetic. Non-trivial: index above 0. '
             'Distinct: by hash of width and words.',
        must_see=['words', 'comparisons', 'degree boundaries', 'index runs'],
        assumptions=COMMON + ['Widths are sampled from a list of 91 between 1 and 2^32-1'],
    ),
    'C07': dict(
        hooks='optional', **native(2 * M, 20 * M),
        rule='A case picks a width and letter sequences (any length up to the maximum, and beyond it) and compares packed words with '
             'them after building, prepending, concatenating and comparing. Non-trivial: non-empty word. Distinct: by hash of width '
             'and letters.',
        must_see=['words read back', 'concatenations', 'overlong words', 'overlong concatenations', 'push_front', 'equality', 'letter iterations'],
        assumptions=COMMON + ['Widths are sampled from a list of 91 between 1 and 2^32-1'],
    ),
    'C08': dict(
        hooks=False, **native(400 * K, 6 * M),
        rule='A case enumerates keys from the empty word, from a random word, across a carry or up to the very end, and checks each '
             'yielded key against the shortlex successor and its index against its position. Non-trivial: at least two keys '
             'yielded. Distinct: by hash of width and starting word.',
        must_see=['keys yielded', 'ends observed', 'enumerations from a word', 'enumerations across carries', 'enumerations to the end'],
        assumptions=COMMON + ['Widths are sampled from a list of 91 between 1 and 2^32-1'],
    ),
    'C09': dict(
        hooks=False, **native(1500 * K, 20 * M),
        rule='A case picks a width, two (or three) operands of any stored size and a degree limit and compares multiply, add_mul, '
             'sub_mul, commutator and custom accumulation with word-by-word convolution; some check associativity, distributivity '
             'and units instead. Non-trivial: product of non-zero operands. Distinct: by hash of width, sizes, values and limit.',
        must_see=['multiply', 'add_mul', 'sub_mul', 'commutator', 'identities', 'no limit', 'custom function', 'oracle cross-checks'],
        assumptions=COMMON,
    ),
    'C10': dict(
        hooks=False, **native(500 * K, 10 * M),
        rule='A case applies one to four in-place product forms in a row to a tensor of any stored size and compares with the '
             'convolution of its old value with the factor, scaled as named. Non-trivial: non-zero operands. Distinct: by hash of '
             'width, form, sizes, values and limit.',
        must_see=['multiply_inplace', 'multiply_into_impl', 'mul_scal_lprod', 'mul_scal_rprod', 'mul_rat_ldiv', 'mul_rat_rdiv'],
        assumptions=COMMON,
    ),
    'C11': dict(
        hooks=False, **native(400 * K, 8 * M),
        rule='A case picks one of 32 (width, maximum degree) tensor types and compares exp, log or fused multiply-exponentiate of '
             'an argument of any stored size with the series evaluated term by term in an exact field (or in floats to a bound). '
             'Non-trivial: non-zero argument. Distinct: by hash of type and arguments.',
        must_see=['exp', 'log', 'fmexp', 'round trips'],
        assumptions=COMMON,
    ),
    'C12': dict(
        hooks=False, **native(1500 * K, 15 * M),
        rule='A case picks sixteen operand pairs (specials, subnormals, halfway cases, random bit patterns) and compares every field '
             'operation bit by bit with the IEEE operation. Non-trivial: always. Distinct: by hash of the bit patterns.',
        must_see=['add', 'sub', 'mul', 'div', 'uminus', 'inv', 'from_degree', 'from_rational', 'chained in-place'],
        assumptions=COMMON + ['NaN payloads are not compared'],
    ),
    'C13': dict(
        hooks=True, **native(500 * K, 10 * M),
        rule='A case runs a history on vectors borrowing shared or mutable buffers (built through the hooks), compares all '
             'coefficients with a model and each lent buffer with what may have been written to it. Non-trivial: some operation '
             'wrote. Distinct: by hash of buffers and history.',
        must_see=['attached buffers checked', 'released buffers checked', 'growing operations', 'write-through operations'],
        assumptions=COMMON + ['Borrowing vectors are made through the guarded hooks, which call the crate-private constructors'],
    ),
    'C14': dict(
        hooks=True, **native(300 * K, 5 * M),
        rule='A case picks a width and a sequence of growths of the degree range map and compares every recorded dimension, element '
             'degree and out-of-range answer with the Witt formula evaluated in 128-bit integers. Non-trivial: at least two degrees '
             'recorded. Distinct: by hash of width and growth sequence.',
        must_see=['dimensions compared', 'element degrees compared', 'degrees out of range', 'elements out of range', 'grow'],
        assumptions=COMMON + ['Degrees up to where the exact dimension fits the 64-bit float arithmetic of the library'],
    ),
    'C15': dict(
        hooks=True, fresh=True,
        quick={'checked': 1200, 'release': 1200, 'miri': 64},
        thorough={'checked': 20 * K, 'release': 20 * K, 'miri': 1500, 'tsan': 3000},
        rule='A case is one fresh process in which 2..16 threads request Hall sets of up to 140 widths for the first time and again, '
             'in lock step, rotated or at random, with injected delays; the recorded history (thread, width, call, return, identity '
             'of the set, answers to queries) is checked afterwards. Non-trivial: some first request overlapped another request '
             'for the same width. Distinct: by hash of the observed overlaps and return orders.',
        must_see=['contended first requests', 'requests recorded', 'queries recorded', 'requests after all handles were dropped'],
        assumptions=COMMON + ['Growing a Hall set is unfinished in the library (todo!) and not requested'],
    ),
    'C16': dict(
        hooks=False, **native(1500 * K, 15 * M),
        rule='A case prints a word, a pair of words or a vector in plain and debug format and parses the text back. Non-trivial: '
             'non-empty word or vector. Distinct: by hash of width and letters or coefficients.',
        must_see=['words printed', 'pairs printed', 'vectors printed', 'terms printed'],
        assumptions=COMMON,
    ),
    'C17': dict(
        hooks=True, **native(1000 * K, 12 * M),
        rule='A case picks one of 53 alphabet widths, makes keys from letters (ends, powers of two and neighbours, random) and reads '
             'everything they say, then asks the shared Hall set of that width about random element numbers and degree ranges. '
             'Non-trivial: always. Distinct: by hash of width, letters and numbers.',
        must_see=['letter keys read back', 'texts compared', 'empty keys', 'is_letter asked', 'degree ranges compared', 'unknown elements'],
        assumptions=COMMON + ['Growing a Hall set is unfinished in the library (todo!): nothing is asked about parents of composite elements'],
    ),
}
