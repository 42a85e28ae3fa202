"""What each check builds and runs."""
TYPES = {0: 'uint8', 1: 'uint16', 2: 'uint32', 3: 'uint64', 4: 'uint128', 5: 'gf128', 6: 'ZZ_p', 7: 'zz_p', None: '-'}
ALL = [0, 1, 2, 3, 4, 5, 6, 7]
O1 = ['-O1', '-fopenmp']
CHECKS = {}

CHECKS['C01'] = dict(
    hooks=True, works_without_hooks=True,
    variants=[dict(name='vole', src='vole.cc', types=ALL, flags=O1,
                   run=dict(cases=60, budget=240, args=['--prop', 'C01']),
                   run_thorough=dict(cases=4000, budget=600))],
    rule='A case draws a type and modulus, channel mode, role/id placement, security parameter and a history of '
         'precomputations and requests (cached, exact, spanning batches, empty) run by both parties; every delivered '
         'position is checked with reference arithmetic. Non-trivial: at least one request; distinct by the whole description.',
    require={'correlations_checked': 10000, 'runs_with_expansion': 20, 'runs_from_cache': 5},
    assumptions=['OT extension and transport are ideal in-process stand-ins (mpc_utils and emp-ot are not installed)'])

IDEAL = ['OT extension and transport are ideal in-process stand-ins (mpc_utils and emp-ot are not installed)',
         'the fork-free two-party runs use real threads and the real serialisation code of /repo over framed in-memory channels']
CHECKS['C02'] = dict(
    hooks=True, works_without_hooks=True,
    variants=[dict(name='vole', src='vole.cc', types=ALL, flags=O1,
                   run=dict(cases=40, budget=240, args=['--prop', 'C02']),
                   run_thorough=dict(cases=4000, budget=600))],
    rule='A case runs two generator pairs through drawn histories; every value handed out and (with hooks) every value '
         'consumed as an expansion seed enters a set in which windows of at least 96 bits may never repeat; outputs feed '
         'uniformity tests (|z| < 7.5). Non-trivial: every case; distinct by the whole history.',
    require={'elements': 100000, 'windows': 100000, 'random_deltas': 20}, assumptions=IDEAL)
CHECKS['C03'] = dict(
    hooks=True,
    variants=[dict(name='vole', src='vole.cc', types=ALL, flags=O1,
                   run=dict(cases=25, budget=240, args=['--prop', 'C03']),
                   run_thorough=dict(cases=2000, budget=600))],
    rule='A case is a history of a generator pair; each expansion it performs is observed at the hook of both parties and '
         'judged against the published parameter table. Non-trivial: an expansion; distinct by sizes, type and modulus.',
    require={'expansions': 200, 'noise_positions': 10000}, assumptions=IDEAL)
CHECKS['C04'] = dict(
    hooks=True, works_without_hooks=True,
    variants=[dict(name='vole', src='vole.cc', types=ALL, flags=O1,
                   run=dict(cases=12, budget=240, args=['--prop', 'C04']),
                   run_thorough=dict(cases=1000, budget=600))],
    rule='A case runs the same public history twice with different secrets and meters every operation on the channel. '
         'Non-trivial: every case; distinct by the whole history.',
    require={'communicating_requests': 100, 'silent_requests': 100, 'multi_batch_requests': 20}, assumptions=IDEAL)

AES = ['aes_uniform_bit_generator.cpp']
GF = ['gf128.cpp']
LOCAL = ['inputs are drawn pseudo-randomly from the seed; the monitors trust their own reference arithmetic, cross-checked at start-up']
CHECKS['C14'] = dict(
    variants=[dict(name='aes', src='aes.cc', repo=AES, flags=['-O1', '-fopenmp'], run=dict(cases=4000, budget=200, shards=4),
                   run_thorough=dict(cases=400000, budget=600, shards=8))],
    rule='A case draws a seed (with wrapping nonces, unaligned and over-long spans), a buffer size and a number of draws '
         'with copies, moves, reseeds and interleaved second generators; every draw is compared with an independent AES-CTR. '
         'Distinct by buffer size, draws and seed placement.',
    require={'draws': 1000000, 'reseeds': 100, 'copies': 100, 'interleavings': 100}, evaluations=['draws'], assumptions=LOCAL)
CHECKS['C15'] = dict(
    variants=[dict(name='i%s' % i, src='aes.cc', flags=['-O2', '-fopenmp', '-DDVOLE_VERIF_RESEED_INTERVAL=%s' % i], repo=AES,
                   run=dict(cases=150 if i < 2 ** 30 else 1, budget=300, args=['--prop', 'C15'], grace=400, stall=120 if i < 2 ** 30 else 700),
                   run_thorough=dict(cases=6000 if i < 2 ** 30 else 1, budget=600))
              for i in (1, 64, 1000, 4097, 2 ** 31 + 5)] +
             [dict(name='const', src='aes.cc', repo=AES, flags=['-O1', '-fopenmp'], run=dict(cases=1, budget=60, args=['--prop', 'C15']))],
    rule='A case exhausts the budget of a generator (interval reduced by a hook) with a drawn buffer size, keeps drawing from '
         'it and from copies of it, reseeds and repeats; one case exceeds a budget of 2^31 blocks. Distinct by interval and buffer size.',
    require={'constant_checked': 1}, assumptions=LOCAL)
CHECKS['C18'] = dict(
    variants=[dict(name='asm', src='gf.cc', repo=GF, flags=['-O2', '-fopenmp', '-DDV_TYPE=5'], libs=['-lboost_serialization'],
                   run=dict(cases=400, budget=200, shards=3), run_thorough=dict(cases=40000, budget=600, shards=4)),
              dict(name='portable', src='gf.cc', repo=GF, flags=['-O2', '-fopenmp', '-DDV_TYPE=5'], drop=['-DUSE_ASM'], libs=['-lboost_serialization'],
                   run=dict(cases=200, budget=200, shards=4), run_thorough=dict(cases=20000, budget=600, shards=4))],
    rule='A case draws ten right operands and 200 left operands each from patterned words (sparse, dense, single-bit, '
         'half-word, subfield and random) and checks every operation, also aliased and 8-byte-aligned, against bit-serial '
         'polynomial arithmetic. Distinct by operand pair.',
    require={'products': 100000, 'inverses': 10000, 'representations': 10000, 'random_elements': 10000}, evaluations=['products'], assumptions=LOCAL)
CHECKS['C12'] = dict(
    variants=[dict(name='ggm', src='ggm.cc', repo=['ggm_tree.cpp'], flags=O1, run=dict(cases=4000, budget=200, shards=8, threads=2),
                   run_thorough=dict(cases=200000, budget=600))],
    rule='A case draws arity, leaf count (biased to powers of the arity and their neighbours), seed, keys and team size; every '
         'node and every XOR summary is compared with an independent expansion. Non-trivial: more than one leaf; distinct by arity and leaf count.',
    require={'nodes': 100000, 'xors': 1000}, evaluations=['nodes'], assumptions=LOCAL)
CHECKS['C13'] = dict(
    variants=[dict(name='ggm', src='ggm.cc', repo=['ggm_tree.cpp'], flags=O1, run=dict(cases=3000, budget=200, shards=8, threads=2, args=['--prop', 'C13']),
                   run_thorough=dict(cases=100000, budget=600))],
    rule='A case draws a tree as for C12 and punctures it at every leaf (small trees) or at boundary and random leaves, with the '
         'ignored entries zero, random or original; every node is compared. Non-trivial: more than one leaf; distinct by arity and leaf count.',
    require={'punctured_trees': 10000, 'nodes': 100000}, evaluations=['punctured_trees'], assumptions=LOCAL)
CHECKS['C16'] = dict(
    variants=[dict(name='cuckoo', src='cuckoo.cc', repo=['cuckoo_hasher.cpp'], flags=O1, run=dict(cases=3000, budget=200, shards=8, threads=2),
                   run_thorough=dict(cases=100000, budget=600))],
    rule='A case draws item type, items, bucket count, number of hash functions, seed and team size; the outputs of the three '
         'hashing calls are checked against each other and against recomputation on permuted subsets. Distinct by all parameters but seed and items.',
    require={'locations': 100000, 'cuckoo_tables': 500, 'buckets': 10000}, evaluations=['buckets'], assumptions=LOCAL)
CHECKS['C17'] = dict(
    variants=[dict(name='cuckoo', src='cuckoo.cc', repo=['cuckoo_hasher.cpp'], flags=O1, run=dict(cases=400, budget=200, shards=8, threads=1, args=['--prop', 'C17']),
                   run_thorough=dict(cases=6000, budget=600))],
    rule='A case draws an input count, hash function count and security parameter (every count up to 64 is visited) and hashes '
         'random distinct inputs under hundreds of random seeds into the computed number of buckets. Distinct by sizes and parameters.',
    require={'tables': 10000, 'bucket_counts': 100}, evaluations=['tables'], assumptions=LOCAL)
SCALAR = ['gf128.cpp', 'ntl_helpers.cpp']
CHECKS['C19'] = dict(
    variants=[dict(name='scalar', src='scalar.cc', repo=SCALAR, types=ALL, flags=O1, run=dict(cases=300, budget=200, threads=2),
                   run_thorough=dict(cases=20000, budget=600))],
    rule='A case draws a modulus and converts, decomposes, packs and unpacks patterned values; everything is recomputed with '
         'integer arithmetic. Distinct by modulus (by case for the fixed types).',
    degrade=(['-DDV_NO_PACK'], ['packings']),
    require={'conversions': 10000, 'packings': 1000, 'bits': 10000}, evaluations=['conversions'], assumptions=LOCAL)
CHECKS['C20'] = dict(
    variants=[dict(name='scalar', src='scalar.cc', repo=SCALAR, types=ALL, flags=O1, run=dict(cases=400, budget=200, threads=2, args=['--prop', 'C20']),
                   run_thorough=dict(cases=20000, budget=600))],
    degrade=(['-DDV_NO_PACK'], []),
    rule='A case draws a modulus (biased to neighbours of powers of two and to more than 128 bits) and asks for 60 decisions '
         'judged by exact integer arithmetic; random elements feed uniformity tests. Distinct by modulus.',
    require={'decisions': 10000, 'accepted': 100, 'refused': 100, 'random_elements': 10000}, evaluations=['decisions'], assumptions=LOCAL)

def proto(p, cases, thorough, rule, require, threads=3, evaluations=[], **kw):
    CHECKS[p] = dict(
        variants=[dict(name='proto', src='proto.cc', types=ALL, flags=O1,
                       run=dict(cases=cases, budget=240, threads=threads, args=['--prop', p]),
                       run_thorough=dict(cases=thorough, budget=600))],
        rule=rule, require=require, evaluations=evaluations, assumptions=IDEAL, **kw)


proto('C05', 1500, 60000, 'A case draws modulus, channel mode, roles and up to four runs (sizes, index patterns, values, bucket updates) on one '
      'pair of objects; every output position is compared with the chosen sparse vector. Distinct by type, size and indices.',
      {'positions': 100000, 'points': 2000, 'reused_buckets': 10, 'foreign_updates': 10}, evaluations=['positions'])
proto('C06', 2000, 60000, 'A case draws up to four batches of point functions on one pair of objects, through all interfaces; every output '
      'position is compared. Distinct by type, sizes and indices.',
      {'positions': 100000, 'empty_members': 20, 'spfss_runs': 100}, evaluations=['positions'])
proto('C07', 1200, 60000, 'A case draws batches for two pairs of objects; outputs are compared position by position, enter a set in which windows of '
      'at least 96 bits may never repeat, and feed uniformity tests. Distinct by type, sizes and indices.',
      {'positions': 100000, 'windows': 100000, 'uniformity_samples': 100000}, evaluations=['positions'])
proto('C08', 1000, 40000, 'A case runs batches, rebuilds the sender\'s trees from its tapped randomness and compares everything the receiver obtained with '
      'them. Distinct by type, sizes and indices.', {'trees': 200, 'levels': 1000, 'blocks_scanned': 10000}, evaluations=['levels'])
proto('C09', 400, 20000, 'A case runs a protocol two or three times with the same coins and different secrets and compares what the other party sees; '
      'masked messages are opened with the masks. Distinct by protocol, type and sizes.',
      {'views_compared': 300, 'masked_messages': 50, 'bytes_scanned': 100000, 'vole_pairs': 10}, threads=1, hooks=True)
proto('C10', 2500, 100000, 'A case draws up to four products of scalars and vectors on one pair of objects; every position is compared. Distinct by type, scalar and length.',
      {'products': 5000, 'gilboa_runs': 500}, evaluations=['products'])
proto('C11', 1200, 50000, 'A case runs products under a drawn modulus (biased to the edge of what may be hashed) and observes shares and OT messages. Distinct by type and lengths.',
      {'ot_messages': 10000, 'plain_batches': 20, 'correlated_batches': 100, 'refused_moduli': 10, 'uniformity_samples': 100000}, evaluations=['ot_messages'])
proto('C25', 500, 20000, 'A case draws two to eight operations of all protocols in both directions on one channel with injected delays; deadlock is detected exactly, '
      'and the channel must be empty after every operation. Distinct by sequence, type and channel.',
      {'operations': 500, 'reversed_operations': 100, 'delayed_histories': 50}, evaluations=['operations'])
CHECKS['C21'] = dict(
    degrade=(['-DDV_NO_PACK'], []),
    variants=[dict(name='local', src='scalar.cc', repo=SCALAR, types=[6, 7], flags=O1, run=dict(cases=300, budget=200, threads=3, args=['--prop', 'C21']),
                   run_thorough=dict(cases=20000, budget=600)),
              dict(name='proto', src='proto.cc', types=[6, 7], flags=O1, run=dict(cases=900, budget=240, threads=3, shards=3, args=['--prop', 'C21']),
                   run_thorough=dict(cases=4000, budget=600))],
    rule='A case runs operations under changing moduli on one set of objects, or two pairs of parties under different moduli at the same time, or '
         'element operations in worker threads; results are judged under the modulus of the call. Distinct by the whole history.',
    require={'operations': 100, 'concurrent_pairs': 20}, assumptions=IDEAL)
CHECKS['C24'] = dict(
    variants=[dict(name='reject', src='reject.cc', types=ALL, flags=O1, run=dict(cases=420, budget=240, threads=2),
                   run_thorough=dict(cases=30000, budget=600))],
    rule='A case violates, one at a time, the preconditions of one class (constructors of all classes in every case) with drawn bad values, with only '
         'the refusing party running; status, traffic, outputs and a valid operation afterwards are judged. Distinct by kind of violation and type.',
    require={'refusals': 5000, 'worked_afterwards': 300, 'unsuitable_moduli': 60}, evaluations=['refusals'], assumptions=IDEAL)

ASAN = ['-O1', '-g1', '-fopenmp', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-D_GLIBCXX_ASSERTIONS']
HARD_RSS_MB = 4000
ASAN_ENV = {'ASAN_OPTIONS': 'hard_rss_limit_mb=%d:' % HARD_RSS_MB + 'detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:exitcode=99:allocator_may_return_null=0',
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0', 'LSAN_OPTIONS': 'exitcode=99'}
MEMCHECK = ['valgrind', '-q', '--error-exitcode=0', '--leak-check=no', '--num-callers=12', '--track-origins=no', '--fair-sched=try']


def san(name, src, types, cases, thorough, args=[], **kw):
    v = dict(name='asan_' + name, src=src, types=types, flags=ASAN, link=['-fopenmp', '-fsanitize=address,undefined'], sanitizer='asan',
             run=dict(cases=cases, budget=200, threads=3, args=args + ['--small'], env=ASAN_ENV), run_thorough=dict(cases=thorough, budget=700))
    v.update(kw)
    return v


def mem(name, src, types, cases, thorough, args=[], **kw):
    v = dict(name='mem_' + name, src=src, types=types, flags=['-O1', '-g1', '-fopenmp'], sanitizer='memcheck', wrap=MEMCHECK,
             run=dict(cases=cases, budget=200, threads=2, args=args + ['--small']), run_thorough=dict(cases=thorough, budget=700))
    v.update(kw)
    return v


CHECKS['C23'] = dict(
    degrade=(['-DDV_NO_PACK'], []),
    variants=[san('proto', 'proto.cc', ALL, 80, 4000, ['--prop', 'mix'], quick_types=[1, 4, 5, 6, 7]),
              san('vole', 'vole.cc', ALL, 3, 200, ['--prop', 'C01'], quick_types=[3, 5, 6]),
              san('reject', 'reject.cc', ALL, {'ZZ_p': 40, '*': 80}, 4000, ['--prop', 'C23'], quick_types=[0, 2, 5, 6]),
              san('scalar', 'scalar.cc', ALL, 30, 2000, repo=SCALAR),
              san('random', 'scalar.cc', [5, 6, 7], 60, 2000, ['--prop', 'C20'], repo=SCALAR),
              san('ggm', 'ggm.cc', None, 200, 20000, repo=['ggm_tree.cpp']),
              san('cuckoo', 'cuckoo.cc', None, 200, 20000, repo=['cuckoo_hasher.cpp']),
              san('aes', 'aes.cc', None, 200, 20000, repo=AES),
              san('gf', 'gf.cc', None, 20, 2000, repo=GF, libs=['-lboost_serialization'], flags=ASAN + ['-DDV_TYPE=5']),
              mem('reject', 'reject.cc', [3, 6, 7], 40, 1000, ['--prop', 'C23'], quick_types=[3, 7]),
              mem('proto', 'proto.cc', [5], 14, 400, ['--prop', 'mix'])],
    rule='A case is a case of the workloads of C01, C05-C07, C10, C11-C14, C16, C18-C21, C24 and C25, or a run against a peer that sends a vector of '
         'unexpected length, executed under AddressSanitizer, LeakSanitizer, UBSan and hardened libstdc++, or under memcheck. Distinct as in those checks.',
    require={'hostile_peers': 40, 'refusals': 1000, 'runs': 300}, assumptions=IDEAL)

TSAN = ['-O1', '-g1', '-fopenmp', '-fsanitize=thread']
TSAN_ENV = {'TSAN_OPTIONS': 'hard_rss_limit_mb=%d:' % HARD_RSS_MB + 'exitcode=0:halt_on_error=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=1:suppress_equal_stacks=1'}
MINI = ['interpose.cc', 'minigomp.cc']


def tsan(name, src, types, cases, thorough, args=[], threads=3, **kw):
    v = dict(name='tsan_' + name, src=src, types=types, flags=TSAN, link=['-fsanitize=thread'], sanitizer='tsan', support=MINI,
             run=dict(cases=cases, budget=200, threads=threads, args=args + ['--small'], env=TSAN_ENV), run_thorough=dict(cases=thorough, budget=700))
    v.update(kw)
    return v


CHECKS['C22'] = dict(
    degrade=(['-DDV_NO_PACK'], []),
    variants=[tsan('proto', 'proto.cc', ALL, 100, 4000, ['--prop', 'C22'], quick_types=[1, 4, 5, 6, 7]),
              tsan('vole', 'vole.cc', ALL, 2, 100, ['--prop', 'C01'], quick_types=[3, 6]),
              tsan('scalar', 'scalar.cc', [6, 7], 60, 4000, ['--prop', 'C21'], repo=SCALAR),
              tsan('cuckoo', 'cuckoo.cc', None, 100, 5000, repo=['cuckoo_hasher.cpp']),
              tsan('ggm', 'ggm.cc', None, 60, 5000, repo=['ggm_tree.cpp']),
              dict(name='sched', src='sched.cc', types=ALL, quick_types=[0, 3, 4, 5, 6, 7], flags=O1, link=['-lpthread'], support=MINI,
                   run=dict(cases=600, budget=200, threads=3), run_thorough=dict(cases=20000, budget=700))],
    rule='A case runs one to three pairs of parties at once (three worker threads per party) or the workloads of C01, C12, C16 and C21 under ThreadSanitizer '
         'with an instrumented OpenMP runtime that perturbs schedules, or repeats one operation with the same inputs and coins under six team sizes and '
         'schedules and compares outputs, messages and OTs byte by byte. Distinct by operations, sizes and type.',
    require={'omp_teams': 1000, 'concurrent_cases': 50, 'schedules_compared': 500, 'omp_distinct_schedules': 1000}, assumptions=IDEAL)
