"""One function per property: what is built, what is run, and what counts."""
import os, subprocess
import selftest, framework
from framework import Unit, Job, ALGOS, VERIF, REPO, HARNESS

SHA2 = ['sha224', 'sha256', 'sha384', 'sha512']
SHA3 = ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512']
SHAKE = ['shake128', 'shake256']
XXH = ['xxh32', 'xxh64']
GOLDEN = os.path.join(VERIF, 'golden', 'giant.txt')
CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def algo_defs(a):
    return {'sha512_224': '-DALGO_t224', 'sha512_256': '-DALGO_t256'}.get(a, '-DALGO_' + a)


def common():
    return [Unit('api.cpp'), Unit('ref.cpp')]


def core_units(cfg, algos, defs=''):
    # workloads are built without instrumentation of their own; the library code is in the algorithm objects
    return [Unit('a_algo.cpp', cfg, (algo_defs(a) + ' ' + defs).strip()) for a in algos] + [Unit('w_core.cpp', cfg)] + common()


def t_units(cfg, groups, defs='-DLEAN'):
    return [Unit('a_algo.cpp', cfg, '-DALGO_T_GROUP=%d %s' % (g, defs)) for g in groups] + [Unit('w_core.cpp', cfg)] + common()


def giant_units(algos):
    return [Unit('a_algo.cpp', 'rel', algo_defs(a)) for a in algos] + [Unit('w_giant.cpp')] + common()


def oracle(ctx):
    """Validates the reference implementation; returns after it agreed with hashlib, base64 and libxxhash."""
    prog = ctx.program('reftool', [Unit('reftool.cpp'), Unit('ref.cpp')], strict=True)
    n = selftest.reference(prog, framework)
    ctx.notes['oracle_selftest'] = '%d digests and texts of the reference agree with hashlib, base64 and libxxhash' % n


def giant_jobs(ctx, algos, passes, limit=None, self=False):
    prog = ctx.program('giant' + str(limit or ''), giant_units(algos))
    jobs = []
    for p in passes:
        for a in algos:
            jobs.append(Job('giant-%s-%s' % (p, a), [prog, '--algos=' + a, '--passes=' + p, '--golden=' + GOLDEN] + (['--limit=%d' % limit] if limit else []) + (['--self=1'] if self else []), timeout=400, cpu=400, group='giant-' + a + p))
    return jobs


def seeds(ctx, n=4):
    return [ctx.seed] if ctx.quick else [ctx.seed + 1000 * i for i in range(n)]


# ---------------------------------------------------------------- digests against the reference

def conformance(ctx, algos, cfgs, giants, giant_limit=None, split=True, **kw):
    units = [u for c in cfgs for u in core_units(c, algos)] + (giant_units(giants) if giants else [])
    ctx.prebuild(units + [Unit('reftool.cpp')])
    oracle(ctx)
    passes = ['steps', 'two'] if ctx.quick else ['steps', 'two', 'one', 'chunks', 'oneshot']
    jobs = giant_jobs(ctx, giants, passes, giant_limit) if giants else []
    for c in cfgs:
        prog = ctx.program('core-' + c, core_units(c, algos))
        for a in algos:
            for s in seeds(ctx, 6):
                slow = c in ('asan', 'casan')
                jobs.append(Job('conform-%s-%s-s%d' % (c, a, s), [prog, '--mode=conform', '--algos=' + a, '--seed=%d' % s,
                            '--random=%d' % ((60 if slow else 300) if ctx.quick else (400 if slow else 4000)), '--blocks=%d' % (4 if ctx.quick else 9),
                            '--big=%d' % (1200000 if slow else 9000000), '--seeds=%d' % (6 if ctx.quick else 40)], group='conform-%s-s%d' % (a, s), timeout=400))
                if split and not slow:
                    jobs.append(Job('split-%s-%s-s%d' % (c, a, s), [prog, '--mode=split', '--algos=' + a, '--seed=%d' % s, '--random=%d' % (200 if ctx.quick else 2000)], group='split-%s-s%d' % (a, s), timeout=400))
    ctx.run_jobs(jobs)


CONF_RULE = ('A case is one message hashed by the library and compared byte for byte with an independent reference (validated in this run against hashlib/libxxhash): '
             'every length from 0 to several blocks with eight kinds of content, random lengths, lengths around powers of two, exhaustive two-way and dense three-way splits, '
             'messages of up to more than 4 GiB against golden digests. Distinct: different (algorithm, length, content, input form, seed, output, split); non-trivial: not the empty message, or more than one update. '
             'Executions run under ASan+UBSan with assertions and in a release build.')
TRUST = ['the reference implementation in harness/ref.cpp, which this run compared with hashlib, base64 and libxxhash', 'compilers and sanitizer run-times', 'x86-64, little endian']


@check('C01')
def c01(ctx):
    conformance(ctx, SHA2, ['asan', 'clrel'], SHA2)
    return ctx.finish(CONF_RULE, assumptions=TRUST, min_evals=20000)


@check('C02')
def c02(ctx):
    groups = list(range(16))
    cfgs = ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan']
    named = ['sha512_224', 'sha512_256']
    ctx.prebuild([u for c in cfgs for u in t_units(c, groups)] + giant_units(named) + [Unit('reftool.cpp')])
    oracle(ctx)
    jobs = giant_jobs(ctx, named, ['steps'] if ctx.quick else ['steps', 'two', 'one', 'chunks'])
    for c in cfgs:
        slow = c in ('asan', 'casan')
        for g in groups:
            prog = ctx.program('t%d-%s' % (g, c), t_units(c, [g]))
            for s in seeds(ctx):
                jobs.append(Job('conform-%s-group%d-s%d' % (c, g, s), [prog, '--mode=conform', '--seed=%d' % s, '--random=%d' % ((20 if slow else 100) if ctx.quick else 600), '--blocks=%d' % (2 if ctx.quick else 4),
                            '--patterns=%d' % (4 if ctx.quick and slow else 8), '--big=%d' % (100000 if slow else 1000000)], group='conform-%d-s%d' % (g, s), timeout=600))
                if not slow and (g % 4 == 0 or not ctx.quick):
                    jobs.append(Job('split-%s-group%d-s%d' % (c, g, s), [prog, '--mode=split', '--seed=%d' % s, '--random=40', '--step3=11'], group='split-%d-s%d' % (g, s), timeout=600))
    ctx.run_jobs(jobs)
    ctx.notes['values_of_t'] = '63: every multiple of 8 from 8 to 512 except 384'
    return ctx.finish(CONF_RULE + ' All 63 values of t are instantiated; the reference runs the IV generation function of FIPS 180-4 for each.', assumptions=TRUST, min_evals=20000)


@check('C03')
def c03(ctx):
    conformance(ctx, SHA3, ['asan', 'clrel'], SHA3)
    return ctx.finish(CONF_RULE, assumptions=TRUST, min_evals=20000)


@check('C04')
def c04(ctx):
    plans = []
    for k in (128, 256):
        for i in range(9):
            plans.append('-DSHAKE=%d -DFROM=%d -DCOUNT=40 -DSTEP=1' % (k, 1 + 40 * i))
        plans.append('-DSHAKE=%d -DLENGTHS=400,504,505,512,544,545,672,673,1000,1024,1344,1345,4096,8192,20000,34817,43009,65543' % k)
        if not ctx.quick:
            for i in range(9, 30):
                plans.append('-DSHAKE=%d -DFROM=%d -DCOUNT=40 -DSTEP=1' % (k, 1 + 40 * i))
            plans.append('-DSHAKE=%d -DLENGTHS=65535,65536,65537,100000' % k)
    cfgs = ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan']
    core = ['clrel'] if ctx.quick else ['clrel', 'asan']
    for c in cfgs:
        ctx.prebuild([Unit('w_xof.cpp', c, p) for p in plans])
    ctx.prebuild([u for c in core for u in core_units(c, SHAKE)] + giant_units(SHAKE) + [Unit('reftool.cpp'), Unit('ref.cpp')])
    oracle(ctx)
    jobs = giant_jobs(ctx, SHAKE, ['steps'] if ctx.quick else ['steps', 'two', 'one', 'chunks'])
    for c in core:
        prog = ctx.program('core-' + c, core_units(c, SHAKE))
        for a in SHAKE:
            for s in seeds(ctx):
                jobs.append(Job('conform-%s-%s-s%d' % (c, a, s), [prog, '--mode=conform,split', '--algos=' + a, '--seed=%d' % s, '--random=%d' % (200 if ctx.quick else 2000), '--big=2000000'], group='conform-%s-s%d' % (a, s), timeout=400))
    for c in cfgs:
        for i, p in enumerate(plans):
            prog = ctx.program('xof%d-%s' % (i, c), [Unit('w_xof.cpp', c, p), Unit('ref.cpp')])
            for s in seeds(ctx):
                jobs.append(Job('xof-%s-%d-s%d' % (c, i, s), [prog, '--seed=%d' % s, '--random=%d' % (40 if ctx.quick else 300)], group='xof-%d-s%d' % (i, s), timeout=400))
    ctx.run_jobs(jobs)
    ctx.notes['output_lengths'] = 'bytes: 1 to 360 each, and up to 65543 (thorough: 1 to 1200 each, up to 100000)'
    return ctx.finish('A case is one (algorithm, message, output length): the output is compared byte for byte with the reference XOF (validated against hashlib). Every output length of 1..360 bytes, i.e. every residue modulo the word size and more than two '
                      'rate blocks, and selected ones up to 65543 bytes are instantiated, each for messages of every length around the rate. Distinct by algorithm, output length, message length and content.', assumptions=TRUST, min_evals=20000)


@check('C05')
def c05(ctx):
    conformance(ctx, XXH, ['asan', 'clrel', 'rel'], XXH)
    return ctx.finish(CONF_RULE, assumptions=TRUST, min_evals=20000)


# ---------------------------------------------------------------- relations between digests

EVERY = ALGOS + ['sha512_224']


@check('C06')
def c06(ctx):
    cfgs = ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan', 'cldbg', 'dbg']
    big = ['sha256', 'sha512', 'sha3_256', 'shake128', 'xxh32', 'xxh64'] if ctx.quick else ALGOS
    ctx.prebuild([u for c in cfgs for u in core_units(c, EVERY)] + giant_units(big))
    if ctx.quick: # SHA-2 hashes 80 MB/s: beyond 2^32 bits, not bytes (C01 goes there)
        jobs = giant_jobs(ctx, ['sha3_256', 'xxh32', 'xxh64'], ['two'], self=True) + giant_jobs(ctx, ['sha256', 'sha512', 'shake128'], ['two'], limit=600000000, self=True)
    else:
        jobs = giant_jobs(ctx, big, ['two', 'chunks'], self=True)
    for c in cfgs:
        slow = c in ('asan', 'casan', 'dbg', 'cldbg')
        prog = ctx.program('core-' + c, core_units(c, EVERY))
        for a in EVERY:
            for s in seeds(ctx):
                jobs.append(Job('split-%s-%s-s%d' % (c, a, s), [prog, '--self=1', '--mode=split', '--algos=' + a, '--seed=%d' % s, '--step3=%d' % ((13 if slow else 3) if ctx.quick else (5 if slow else 1)), '--random=%d' % ((100 if slow else 400) if ctx.quick else 3000)], group='split-%s-s%d' % (a, s), timeout=600))
                if not slow:
                    jobs.append(Job('many-%s-%s-s%d' % (c, a, s), [prog, '--self=1', '--mode=many', '--algos=' + a, '--seed=%d' % s, '--updates=%d' % (70001 if ctx.quick else 5000000)], group='many-%s-s%d' % (a, s), timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one message cut into one sequence of update calls; its digest is compared with the digest the library gives for the same message in one update, and size() (where there is one) with the bytes given so far after every update: '
                      'all two-way cuts of all lengths over two blocks, dense three-way cuts with empty pieces, fixed-size pieces, random cuts, 70001 and more updates of one message, and 4 GiB in two pieces. Non-trivial: more than one update. Distinct by algorithm, message and cuts.',
                      assumptions=['a wrong digest of the uncut message is the business of C01-C05'], min_evals=20000)


@check('C07')
def c07(ctx):
    cfgs = ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan', 'dbg']
    algos = EVERY + ['sha512_256']
    ctx.prebuild([u for c in cfgs for u in core_units(c, algos, '-DLEAN')])
    jobs = []
    for c in cfgs:
        prog = ctx.program('core-' + c, core_units(c, algos, '-DLEAN'))
        for s in range(4 if ctx.quick else 40):
            jobs.append(Job('history-%s-%d' % (c, s), [prog, '--self=1', '--mode=history', '--seed=%d' % (ctx.seed * 100 + s), '--rounds=%d' % (60 if ctx.quick else 400), '--ops=250'], group='history-%d' % s, timeout=600))
        for a in algos: # histories over hashers of one kind
            jobs.append(Job('history-%s-%s' % (c, a), [prog, '--self=1', '--mode=history', '--algos=' + a, '--seed=%d' % ctx.seed, '--rounds=%d' % (20 if ctx.quick else 200), '--ops=250'], group='history-' + a, timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one digest finished inside a history: up to 24 live hashers of mixed algorithms are constructed, updated, copied, moved, assigned, finished (repeatedly where final() is const) and dropped in random order, '
                      'each shadowed by the list of bytes it was given; every digest must equal the one of a hasher used alone for those bytes. Also every hasher is copied, moved or assigned at every byte position of the first two blocks and both sides continue differently. '
                      'Distinct by history prefix and hasher.', min_evals=5000)


@check('C08')
def c08(ctx):
    jobs = []
    cfgs = ['tsan', 'ctsan']
    units = {c: [Unit('w_threads.cpp', c)] + [Unit('a_algo.cpp', c, algo_defs(a) + ' -DLEAN') for a in EVERY] + [Unit('api.cpp', c), Unit('ref.cpp', c)] for c in cfgs}
    for c in cfgs:
        ctx.prebuild(units[c])
    for c in cfgs:
        prog = ctx.program('threads-' + c, units[c], libs='-pthread')
        for s in range(2 if ctx.quick else 12):
            for t, ops, rounds in ((8, 300, 30 if ctx.quick else 200), (2, 600, 30 if ctx.quick else 200), (3, 40, 150 if ctx.quick else 1500)):
                jobs.append(Job('threads-%s-%d-s%d' % (c, t, s), [prog, '--self=1', '--threads=%d' % t, '--ops=%d' % ops, '--rounds=%d' % rounds, '--seed=%d' % (ctx.seed * 50 + s)], timeout=600))
        for s in range(12 if ctx.quick else 200):
            jobs.append(Job('first-%s-s%d' % (c, s), [prog, '--self=1', '--cold=1', '--threads=%d' % (2, 3, 4, 6)[s % 4], '--seed=%d' % (ctx.seed * 500 + s)], group='first', timeout=300))
    ctx.run_jobs(jobs)
    return ctx.finish('An evaluation is one operation of one of 2 to 8 threads, all running against each other under ThreadSanitizer (gcc and clang run-times): hashing with hashers of its own, copying, continuing and finishing a constant hasher shared by all threads, and printing, formatting, encoding, '
                      'parsing, comparing and cutting digest values shared by all threads; a data race ends the run, and every result is compared with the single-threaded one after the threads have joined. In further processes the first use of every algorithm and of every operation on values in the process is made by all threads at the same moment. Distinct: first uses, and operations begun while another thread was inside one.',
                      assumptions=['ThreadSanitizer sees races whose two accesses both happen in the run; the first operations of all threads of every round meet in the same algorithm'], min_evals=5000)


CT_HASHES = [('sha224', 64, ''), ('sha256', 64, ''), ('sha384', 128, ''), ('sha512', 128, ''), ('sha512t<224>', 128, ''), ('sha512t<8>', 128, ''), ('sha512t<504>', 128, ''),
             ('sha3_224', 144, ''), ('sha3_256', 136, ''), ('sha3_384', 104, ''), ('sha3_512', 72, ''), ('shake128', 168, '-DXOF=200'), ('shake256', 136, '-DXOF=9'), ('shake128', 168, '-DXOF=33'), ('shake256', 136, '-DXOF=280'),
             ('xxhash32', 16, '-DSEEDED=uint32_t -DCASES=72'), ('xxhash64', 32, '-DSEEDED=uint64_t -DCASES=72')]
CT_CC = {'gcc20': ('g++-14', '-std=c++20 -O1 -fconstexpr-ops-limit=4000000000 -fconstexpr-loop-limit=100000000'),
         'gcc23': ('g++-14', '-std=c++23 -O1 -fconstexpr-ops-limit=4000000000 -fconstexpr-loop-limit=100000000'),
         'gcc13': ('g++-13', '-std=c++20 -O1 -fconstexpr-ops-limit=4000000000 -fconstexpr-loop-limit=100000000'),
         'clang20': (framework.CLANG, '-std=c++20 -O1 -fconstexpr-steps=2000000000'),
         'clang23': (framework.CLANG, '-std=c++23 -O1 -fconstexpr-steps=2000000000'),
         'gcc23n': ('g++-14', '-std=c++23 -O2 -DNDEBUG -funsigned-char -fconstexpr-ops-limit=4000000000 -fconstexpr-loop-limit=100000000'),
         'clang23n': (framework.CLANG, '-std=c++23 -O2 -DNDEBUG -funsigned-char -fconstexpr-steps=2000000000')}


@check('C09')
def c09(ctx):
    encs = ['base64', 'base64_no_padding', 'base64url', 'base32', 'base32_no_padding', 'z_base32', 'base16', 'base16_uppercase', 'base8', 'base4', 'base2']
    wide = {'base16', 'base16_uppercase', 'base4', 'base2'}
    plan = []
    ccs = ['gcc23', 'clang20'] if ctx.quick else list(CT_CC)
    parts = 1 if ctx.quick else 6
    for i, cc in enumerate(ccs):
        for p in range(parts):
            for h, b, x in CT_HASHES:
                plan.append((cc, 'ct_hash.cpp', ('-DHASH=cthash::%s -DBLOCK=%d -DCT_SEED=%d -DPART=%d %s' % (h, b, ctx.seed * 2 + i, p, x)).strip(), '%s%s' % (h, x.replace('-DXOF=', '/') if 'XOF' in x else '')))
            for e in encs:
                plan.append((cc, 'ct_value.cpp', '-DENC=cthash::encoding::%s -DCT_SEED=%d%s' % (e, ctx.seed * 2 + i + 100 * p, ' -DWIDE' if e in wide else ''), e))
            plan.append((cc, 'ct_value.cpp', '-DVALUES -DCT_SEED=%d' % (ctx.seed * 2 + i + 100 * p), 'values'))
    unit = lambda cc, src, defs: Unit(src, None, defs, compiler=CT_CC[cc][0], flags=CT_CC[cc][1])
    futs = [(pl, ctx.unit(unit(*pl[:3]))) for pl in plan]
    jobs = []
    refused = 0
    for (cc, src, defs, name), f in futs:
        try:
            f.result()
        except framework.BuildFailure as e:
            # the same file without the constant evaluations must compile, else this says nothing about them
            ctx.unit(unit(cc, src, defs + ' -DRUNTIME_ONLY')).result()
            refused += 1
            msg = [l for l in e.log.split('\n') if 'error' in l or 'not a constant' in l][:4]
            ctx.violation('%s:%s:not a constant expression' % (cc, name), ' | '.join(msg) or e.log[-800:])
            continue
        prog = ctx.program('ct-%s-%s' % (cc, ''.join(c if c.isalnum() else '_' for c in name)), [unit(cc, src, defs)])
        jobs.append(Job('ct-%s-%s-%d' % (cc, name, len(jobs)), [prog]))
    ctx.run_jobs(jobs)
    ctx.notes['translation_units'] = '%d, each holding a table computed by the compiler; %d refused' % (len(plan), refused)
    return ctx.finish('A case is one computation done twice by the same source: by the compiler, in the initialiser of a constexpr table, and by the running program from data it cannot fold; both results must be equal byte for byte. Cases: every hasher with messages of up to five blocks '
                      'cut into three updates, nine input types, contents with and without high bytes, seeds, copies and several output lengths; all encodings in five character types; parsing, comparing, cutting and printing digests. A compiler that refuses a table while it accepts the same code at run time is a violation. '
                      'Distinct by computation; non-trivial: not the empty message.', assumptions=['the deciding comparison happens in the running program; constant evaluation is the compiler interpreting the real code'], min_evals=500)


# ---------------------------------------------------------------- memory, allocation

@check('C10')
def c10(ctx):
    # digests and texts are judged by other checks; here only faults, sanitizer reports, assertions and overruns count
    only = r'^fault|wrote-outside|modified|surroundings'
    san = ['asan', 'casan']
    encs = [0, 3, 8] if ctx.quick else range(11)
    algos = EVERY
    vg_algos = algos
    units = {c: core_units(c, algos) for c in san}
    guard = {c: [Unit('w_guard.cpp', c)] + [Unit('a_algo.cpp', c, algo_defs(a)) for a in algos] + common() for c in (['rel', 'clrel'] if ctx.quick else ['rel', 'clrel', 'asan', 'cldbg'])}
    vg = [Unit('w_core.cpp')] + [Unit('a_algo.cpp', 'vg', algo_defs(a) + ' -DLEAN') for a in algos] + common()
    msan = [Unit('m_msan.cpp', 'msan')]
    enc = {(c, e): [Unit('w_enc.cpp', c, '-DENC=%d -DENC_TYPE=cthash::encoding::%s -D%s' % (e, ENCODINGS[e], m))] + common() for c in (['asan'] if ctx.quick else san) for e in encs for m in (['CONFORM'] if ctx.quick else ['CONFORM', 'VIEWS'])[:1]}
    text = {c: [Unit('w_value.cpp', c, '-DHEX -DVALUES=X(cthash::sha224_value,"v")')] + common() for c in (['casan'] if ctx.quick else san)}
    prnt = {c: [Unit('w_value.cpp', c, '-DPRINT -DVALUES=X(cthash::sha256_value,"v")')] + common() for c in (['casan'] if ctx.quick else san)}
    names = {c: [Unit('w_names.cpp', c)] + common() for c in (['asan'] if ctx.quick else san)}
    for g in (units, guard, enc, prnt, text, names):
        for u in g.values():
            ctx.prebuild(u)
    ctx.prebuild(vg + msan)
    jobs = []
    for c in san:
        prog = ctx.program('core-' + c, units[c])
        for a in algos:
            for s in seeds(ctx):
                jobs.append(Job('core-%s-%s-s%d' % (c, a, s), [prog, '--self=1', '--mode=conform,split,purity', '--algos=' + a, '--seed=%d' % s, '--blocks=2', '--patterns=3', '--random=%d' % (30 if ctx.quick else 300), '--step3=%d' % (17 if ctx.quick else 5), '--big=200000'], group='core-%s-s%d' % (a, s), timeout=600, only=only))
        jobs.append(Job('history-' + c, [prog, '--self=1', '--mode=history', '--seed=%d' % ctx.seed, '--rounds=%d' % (20 if ctx.quick else 300)], group='history', timeout=600, only=only))
    for c, u in guard.items():
        jobs.append(Job('guard-' + c, [ctx.program('guard-' + c, u), '--self=1', '--seed=%d' % ctx.seed] + (['--report=0'] if c == 'asan' else []), group='guard', timeout=400, only=only))
    prog = ctx.program('vg', vg)
    for a in vg_algos:
        jobs.append(Job('valgrind-' + a, ['valgrind', '-q', '--error-exitcode=95', '--track-origins=no', '--leak-check=no', prog, '--self=1', '--mode=conform,history', '--algos=' + a, '--seed=%d' % ctx.seed, '--blocks=1', '--patterns=1', '--random=5', '--maxrandom=2000', '--seeds=1', '--rounds=2', '--ops=60'], timeout=600, only=only))
    jobs.append(Job('msan', [ctx.program('msan', msan)], timeout=300))
    for (c, e), u in enc.items():
        jobs.append(Job('encode-%s-%s' % (c, ENCODINGS[e]), [ctx.program('enc-%s-%d' % (c, e), u), '--seed=%d' % ctx.seed, '--step2=%d' % (17 if ctx.quick else 1)], group='encode-%d' % e, timeout=600, only=only))
    for c, u in text.items():
        jobs.append(Job('parse-' + c, [ctx.program('hex-' + c, u), '--seed=%d' % ctx.seed], group='parse', timeout=600, only=only))
    for c, u in prnt.items():
        jobs.append(Job('print-' + c, [ctx.program('print-' + c, u), '--seed=%d' % ctx.seed], group='print', timeout=600, only=only))
    for c, u in names.items():
        for p in ((0, 2) if ctx.quick else range(7)):
            jobs.append(Job('names-%s-%d' % (c, p), [ctx.program('names-' + c, u), '--part=%d' % p, '--seed=%d' % ctx.seed, '--random=500'], group='names-%d' % p, timeout=600, only=only))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one use of the library executed under at least one memory or undefined-behaviour monitor: ASan+UBSan of gcc and of clang (with local bounds and library assertions) over inputs in exactly sized heap blocks, a build whose inputs, outputs and hashers end or begin at unmapped pages with the input pages read-only, '
                      'valgrind memcheck over dirty memory, and MemorySanitizer with explicit checks that every digest, text and comparison result is initialised. Any report, fault, failed assertion, changed input byte or byte written outside the digest is a violation. Distinct by algorithm, length, placement and split.', assumptions=['the monitors see the executions of these workloads only'], min_evals=20000)


@check('C11')
def c11(ctx):
    cfgs = ['rel', 'clrel', 'dbg'] if ctx.quick else ['rel', 'clrel', 'dbg', 'cldbg']
    units = {c: [Unit('w_alloc.cpp', c)] + [Unit('a_algo.cpp', c, algo_defs(a) + ' -DLEAN') for a in EVERY] + common() for c in cfgs}
    for c in cfgs:
        ctx.prebuild(units[c])
    jobs = []
    for c in cfgs:
        prog = ctx.program('alloc-' + c, units[c])
        for a in EVERY:
            huge = 0 if c in ('dbg', 'cldbg') else (1 << 28 if ctx.quick else (1 << 32) + 5)
            jobs.append(Job('alloc-%s-%s' % (c, a), [prog, '--algos=' + a, '--seed=%d' % ctx.seed, '--big=%d' % (1000000 if c in ('dbg', 'cldbg') else 3000000), '--huge=%d' % huge], group='alloc-' + a, timeout=600))
        jobs.insert(0, Job('alloc-%s-types' % c, [prog, '--types=1', '--seed=%d' % ctx.seed], group='alloc-types', timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one library call (construct, update, copy, move, assign, size, final in every form, one-shot, compare, parse, cut, to_fixed_string, encode into a given buffer) with malloc, calloc, realloc, aligned_alloc, memalign and posix_memalign replaced by counting ones, which are armed only inside the call; '
                      'any call of them or any exception is a violation. Also strings, vectors, arrays, views and spans of every byte-like type handed over as they are. Lengths: all up to two blocks, selected and random ones up to 3 MB, and 256 MiB (thorough: more than 4 GiB). The counter is tested in every run. Distinct by algorithm, call and length.', min_evals=20000)


# ---------------------------------------------------------------- texts

ENCODINGS = ['base64', 'base64_no_padding', 'base64url', 'base32', 'base32_no_padding', 'z_base32', 'base16', 'base16_uppercase', 'base8', 'base4', 'base2']


def enc_check(ctx, what, cfgs, args, rule, **kw):
    units = {(c, i): [Unit('w_enc.cpp', c, '-DENC=%d -DENC_TYPE=cthash::encoding::%s -D%s' % (i, e, what))] + common() for c in cfgs for i, e in enumerate(ENCODINGS)}
    for u in units.values():
        ctx.prebuild(u)
    if what == 'CONFORM':
        ctx.prebuild([Unit('reftool.cpp')])
        oracle(ctx)
    jobs = []
    for (c, i), u in units.items():
        prog = ctx.program('enc-%s-%s-%d' % (what, c, i), u)
        for s in seeds(ctx):
            jobs.append(Job('%s-%s-%s-s%d' % (what.lower(), c, ENCODINGS[i], s), [prog, '--seed=%d' % s] + args(c), group='%s-%d-s%d' % (what, i, s), timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish(rule, **kw)


@check('C12')
def c12(ctx):
    return enc_check(ctx, 'CONFORM', ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan'], lambda c: ['--step2=%d' % (7 if ctx.quick and c == 'asan' else 1), '--random=%d' % (2000 if ctx.quick else 30000)],
                     'A case is one input encoded through one path (span, view, string, vector, list, deque, temporary or not, digest; five character types; iteration, to_string, stream, format) and compared with an independent bit-by-bit encoder (validated in this run against base64 of Python). Inputs: every text of one byte, every (release build) or every 7th (sanitized build) text of two bytes, '
                     'every single set bit, all lengths up to 300 with eight kinds of content, random ones, 70 kB ones, and ranges of wider signed and unsigned integers. Distinct by encoding, input and path; non-trivial: not empty.', assumptions=TRUST, min_evals=50000)


@check('C23')
def c23(ctx):
    return enc_check(ctx, 'VIEWS', ['asan', 'clrel'] if ctx.quick else ['asan', 'clrel', 'rel', 'casan'], lambda c: ['--random=%d' % (40 if ctx.quick else 600)],
                     'A case is one view (14 kinds of source: changed, grown and shrunk lvalues, temporaries of five containers, digests, copies and moved views) walked twice from begin to end and then by up to six iterators copied, advanced (both ways of incrementing) and dereferenced in random order; each character must equal the one a single pass over a fresh view of the same bytes gives, '
                     'size() must equal the number of characters, and sources must keep their content. Distinct by encoding, kind of source and text; non-trivial: not empty.', min_evals=20000)


VALUE_TYPES = ['cthash::sha224_value', 'cthash::sha256_value', 'cthash::sha384_value', 'cthash::sha512_value', 'cthash::sha512t_value<224>', 'cthash::sha512t_value<256>', 'cthash::sha3_224_value', 'cthash::sha3_256_value', 'cthash::sha3_384_value', 'cthash::sha3_512_value',
               'cthash::shake128_value<128>', 'cthash::shake256_value<1088>', 'cthash::xxhash32_value', 'cthash::xxhash64_value', 'cthash::hash_value<1>', 'cthash::hash_value<5>', 'cthash::hash_value<20>', 'cthash::hash_value<33>', 'cthash::hash_value<64>']
TAGGED = ['cthash::tagged_hash_value<tag_%s>' % t for t in ('base64', 'base32', 'zbase32', 'upper', 'binary', 'plain')]


def values_of(types):
    return '-DVALUES=' + ''.join('X(%s,"%s")' % (t.replace(' ', ''), t.replace('cthash::', '').replace(' ', '')) for t in types)


def grouped(types, n):
    return [types[i:i + n] for i in range(0, len(types), n)]


def value_check(ctx, mode, groups, cfgs, args, rule, assumptions=None, min_evals=1000, more=None):
    units = {(c, i): [Unit('w_value.cpp', c, g if isinstance(g, str) else '-D%s %s' % (mode, values_of(g)))] + common() for c in cfgs for i, g in enumerate(groups)}
    for u in units.values():
        ctx.prebuild(u)
    extra = more(ctx) if more else []
    jobs = list(extra)
    for (c, i), u in units.items():
        prog = ctx.program('%s-%s-%d' % (mode, c, i), u)
        for s in seeds(ctx):
            jobs.append(Job('%s-%s-%d-s%d' % (mode.lower(), c, i, s), [prog, '--seed=%d' % s] + args(c), group='%s-%d-s%d' % (mode, i, s), timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish(rule, assumptions=assumptions, min_evals=min_evals)


@check('C13')
def c13(ctx):
    types = TAGGED + (['cthash::sha224_value', 'cthash::sha256_value', 'cthash::sha512_value', 'cthash::sha512t_value<256>', 'cthash::sha3_384_value', 'cthash::shake128_value<128>', 'cthash::xxhash32_value', 'cthash::xxhash64_value', 'cthash::hash_value<1>', 'cthash::hash_value<5>'] if ctx.quick else VALUE_TYPES)
    return value_check(ctx, 'PRINT', grouped(types, 1), ['clrel'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan'], lambda c: ['--random=%d' % (20 if ctx.quick else 300)],
                       'A case is one text of one digest value from one path (streams narrow and wide in six states, repeated and mixed; print_into; to_string; to_fixed_string; format narrow and wide with every name and several at once; formatted_size; format_to; format_to_n; lazy encoding) compared with the text of plain encoding of the same bytes, or with lower-case hexadecimal computed separately where no encoding is named. '
                       'Digest types: those of the algorithms, plain values, and tags which select another default encoding. Distinct by type, path and text.', min_evals=5000)


@check('C14')
def c14(ctx):
    cfgs = ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan']
    units = {c: [Unit('w_names.cpp', c)] + common() for c in cfgs}
    for u in units.values():
        ctx.prebuild(u)
    jobs = []
    for c in cfgs:
        prog = ctx.program('names-' + c, units[c])
        for p in range(7):
            for s in seeds(ctx):
                deep = not ctx.quick or c == 'clrel'
                jobs.append(Job('names-%s-%d-s%d' % (c, p, s), [prog, '--part=%d' % p, '--seed=%d' % s, '--random=%d' % (3000 if ctx.quick else 100000)] + (['--deep=1'] if deep else []), group='names-%d-s%d' % (p, s), timeout=800))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one format specification (or text given to select_runtime_encoding): accepted if and only if it is exactly one of the 17 names and alternative names or empty, and then the text must be the one that encoding gives when used directly, and parsing must stop at the brace. Texts: all names with every single insertion, deletion, substitution over 255 characters (wide: also characters which '
                      'equal a letter modulo 256), swaps, all case mixes, cuts, concatenations, long texts, all texts of two characters, random ones; narrow and wide; three kinds of digest. Distinct by text and way.', min_evals=50000)


def hex_literals(ctx):
    """A translation unit of user-defined literals with random digits; each must hold exactly its bytes."""
    import random
    rnd = random.Random(ctx.seed * 7919 + 15)
    suffixes = {'_sha224': 28, '_sha256': 32, '_sha384': 48, '_sha512': 64, '_sha512_224': 28, '_sha512_256': 32, '_sha3_224': 28, '_sha3_256': 32, '_sha3_384': 48, '_sha3_512': 64, '_xxh32': 4, '_xxh64': 8, '_hash': None, '_shake128': None, '_shake256': None}
    types = {'_sha224': 'sha224_value', '_sha256': 'sha256_value', '_sha384': 'sha384_value', '_sha512': 'sha512_value', '_sha512_224': 'sha512t_value<224>', '_sha512_256': 'sha512t_value<256>', '_sha3_224': 'sha3_224_value', '_sha3_256': 'sha3_256_value', '_sha3_384': 'sha3_384_value', '_sha3_512': 'sha3_512_value', '_xxh32': 'xxhash32_value', '_xxh64': 'xxhash64_value'}
    lines = []
    n = 0
    for suf, size in suffixes.items():
        for k in range(14 if ctx.quick else 60):
            size_k = size or rnd.choice([1, 2, 3, 5, 8, 16, 21, 32, 64])
            b = bytes(rnd.randrange(256) for _ in range(size_k)) if k > 3 else bytes([[0, 255, 0xa5, 0xfa][k]] * size_k)
            t = ''.join(c.upper() if rnd.random() < [0, 1, .5][k % 3] else c for c in b.hex())
            pre = ['', '', 'L', 'u8', 'u', 'U'][k % 6]
            lines.append('{ constexpr auto v = %s"%s"%s; check(v, "%s", "%s%s"); %s }' % (pre, t, suf, b.hex(), suf, ' ' + pre if pre else '',
                         'static_assert(std::is_same_v<std::remove_cvref_t<decltype(v)>, cthash::%s>);' % types[suf] if suf in types else ''))
            n += 1
    src = os.path.join(ctx.tmp, 'literals.cpp')
    with open(src, 'w') as f:
        f.write('#include "rt.hpp"\n#include <cthash/cthash.hpp>\n#include <cthash/sha2/sha512/t.hpp>\n#include <type_traits>\nusing namespace cthash::literals;\nstatic rt::Report rep;\n'
                'template <typename V> static void check(const V & v, const char * want, const char * what) {\n'
                '\tconst auto got = rt::hex(v.data(), v.size());\n\tif (got != want) rep.viol(std::string("literal ") + what, "spelled %s got %s", want, got.c_str());\n\trep.cas(rt::key(rt::hstr(what), rt::hstr(want)));\n}\n'
                'int main() {\n' + '\n'.join(lines) + '\nrep.sample("%d literals of 15 suffixes in five character types");\nreturn rep.done();\n}\n' % n)
    jobs = []
    for name, cfg in (('gcc', 'rel'), ('clang', 'cldbg')):
        jobs.append(Job('literals-' + name, [ctx.program('literals-' + name, [Unit(src, cfg)])], group='literals'))
    return jobs


@check('C15')
def c15(ctx):
    return value_check(ctx, 'HEX', grouped(VALUE_TYPES if not ctx.quick else ['cthash::sha224_value', 'cthash::sha256_value', 'cthash::sha384_value', 'cthash::sha512_value', 'cthash::sha512t_value<224>', 'cthash::sha3_256_value', 'cthash::xxhash32_value', 'cthash::xxhash64_value', 'cthash::shake128_value<128>', 'cthash::hash_value<1>', 'cthash::hash_value<5>', 'cthash::hash_value<33>'], 1),
                       ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan'], lambda c: ['--random=%d' % (100 if ctx.quick else 3000)],
                       'A case is one hexadecimal text parsed into a digest value (arrays and fixed strings in five character types, in exactly sized heap blocks; generated user-defined literals of all 15 suffixes) whose bytes must be exactly those spelled: every byte value at every position in three case mixes, random texts; and every value printed and parsed back must compare equal. Distinct by type, text and way.', min_evals=5000, more=hex_literals)


@check('C16')
def c16(ctx):
    types = VALUE_TYPES if not ctx.quick else ['cthash::sha224_value', 'cthash::sha256_value', 'cthash::sha384_value', 'cthash::sha512_value', 'cthash::sha512t_value<256>', 'cthash::sha3_512_value', 'cthash::xxhash32_value', 'cthash::xxhash64_value', 'cthash::shake128_value<128>', 'cthash::shake256_value<1088>', 'cthash::hash_value<1>', 'cthash::hash_value<5>', 'cthash::hash_value<33>'] 
    return value_check(ctx, 'COMPARE', grouped(types + ['cthash::tagged_hash_value<tag_plain>'], 2), ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan'], lambda c: ['--random=%d' % (500 if ctx.quick else 20000)],
                       'A case is one pair of digest values for which ==, !=, <, >, <=, >= and <=> in both operand orders are compared with memcmp: pairs that differ in exactly one byte, at every position, equal pairs, pairs with several differences and with high bytes, random pairs; sorting and sets over values are compared with sorting of byte strings. Distinct by type and pair.', min_evals=5000)


@check('C17')
def c17(ctx):
    lens = ['1,2,3', '1,4,7,8', '8,9,16', '16,17,32', '32,33,64', '3,64,136', '2,168,169', '5,20,33'] if ctx.quick else ['1,2,3,4,5', '4,6,7,8,9', '8,15,16,17,24', '16,31,32,33,48', '32,63,64,65,66', '3,64,127,128,136', '1,2,135,137,168', '2,168,169,200,256', '5,20,33,100,101', '1,16,256,300,512']
    return value_check(ctx, 'CROSS', ['-DCROSS=' + l for l in lens], ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel'], lambda c: ['--random=%d' % (300 if ctx.quick else 5000)],
                       'A case is one pair of SHAKE values of different length (21 pairs of lengths and more, both algorithms, both operand orders) for which all comparison operators are compared with memcmp of the common bytes: equal common parts, one difference at every byte inside or outside the common part, high bytes, random values, real outputs of one message. Distinct by lengths and pair.', min_evals=5000)


@check('C18')
def c18(ctx):
    types = ['cthash::xxhash32_value', 'cthash::xxhash64_value', 'cthash::sha224_value', 'cthash::sha256_value', 'cthash::sha384_value', 'cthash::sha512t_value<224>', 'cthash::sha3_256_value', 'cthash::hash_value<1>', 'cthash::hash_value<5>', 'cthash::shake128_value<128>', 'cthash::sha512_value', 'cthash::sha3_512_value']
    return value_check(ctx, 'CUT', grouped(types if ctx.quick else VALUE_TYPES, 1), ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan'], lambda c: ['--random=%d' % (30 if ctx.quick else 1000)],
                       'A case is prefix<k> or suffix<k> of one digest value, for every k from the smallest to the size, compared with the bytes of the value; the value must stay the same and prefix<k> followed by suffix<size-k> must give it back. Distinct by type, k and value.', min_evals=2000)


# ---------------------------------------------------------------- forms of input, surroundings

# numbers of the forms (harness/api.hpp) each kind of hasher accepts today
FORMS_ALL = [i for i in range(30) if i not in (24,)]
FORMS_XXH = [0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 19]


@check('C19')
def c19(ctx):
    import random
    rnd = random.Random(ctx.seed * 31 + 19)
    sizes = sorted({48, rnd.choice([1, 2, 3, 4, 5, 7, 8, 9]), rnd.randrange(120, 200)} | (set() if ctx.quick else {rnd.randrange(10, 100), rnd.randrange(200, 300)}))
    defs = '-DRICH=1 -DRICH_SIZES=%s -DTAGGED_INPUT=cthash::sha384_value' % ','.join(map(str, sizes))
    cfgs = ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan']
    for c in cfgs:
        ctx.prebuild(core_units(c, EVERY, defs))
    jobs = []
    for c in cfgs:
        prog = ctx.program('forms-' + c, core_units(c, EVERY, defs))
        for a in EVERY:
            for s in seeds(ctx):
                jobs.append(Job('forms-%s-%s-s%d' % (c, a, s), [prog, '--self=1', '--mode=forms', '--algos=' + a, '--seed=%d' % s, '--random=%d' % (400 if ctx.quick else 5000), '--sizes=' + ','.join(map(str, sizes)),
                                '--expect=' + ','.join(map(str, FORMS_XXH if a.startswith('xxh') else FORMS_ALL))], group='forms-%s-s%d' % (a, s), timeout=600))
    ctx.run_jobs(jobs)
    ctx.notes['compile_time_sizes'] = sizes
    return ctx.finish('A case is one message given to a hasher in one input form (spans of five byte types, dynamic, fixed and mutable; views, strings, vectors, arrays, C arrays of bytes, literals, fixed strings, digest values), alone, after a partial block, through the one-shot helper, with seeds, and in random mixes of forms, its digest compared with the one of the same bytes in one dynamic span of std::byte. '
                      'Every length over three blocks with five kinds of content; forms with a compile-time size at 3 sizes chosen by the seed. Each hasher must accept the forms it accepts today. Distinct by algorithm, form, length and content.', min_evals=50000)


@check('C26')
def c26(ctx):
    cfgs = ['rel', 'clrel', 'asan'] if ctx.quick else ['rel', 'clrel', 'asan', 'casan', 'dbg', 'cldbg']
    for c in cfgs:
        ctx.prebuild(core_units(c, EVERY, '-DLEAN'))
    jobs = []
    for c in cfgs:
        prog = ctx.program('core-' + c, core_units(c, EVERY, '-DLEAN'))
        for a in EVERY:
            for s in seeds(ctx):
                jobs.append(Job('purity-%s-%s-s%d' % (c, a, s), [prog, '--self=1', '--mode=purity', '--algos=' + a, '--seed=%d' % s, '--random=%d' % (300 if ctx.quick else 5000), '--repeat=%d' % ((8000 if 'san' in c else 140000) * (1 if ctx.quick else 8))], group='purity-%s-s%d' % (a, s), timeout=600))
        jobs.append(Job('purity-%s-mixed' % c, [prog, '--self=1', '--mode=purity', '--seed=%d' % (ctx.seed + 5), '--random=20'], group='purity-mixed', timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one message hashed by a hasher constructed in memory holding zeros, ones or random bytes, from an address with one of 64 alignments, between neighbouring zeros, ones or other bytes, also after unrelated hashing in between, into a buffer at varying addresses; the digest must be the one a hasher in clean memory gives for a copy of the bytes, and a snapshot of the input and its surroundings and of the surroundings of the digest must be unchanged. '
                      'Distinct by algorithm, length, alignment, surroundings, old memory content and split.', min_evals=20000)


# ---------------------------------------------------------------- build configurations

VARIANTS = {
    'g14-23-O2': ('g++-14', '-std=c++23 -O2'),
    'g14-23-O0': ('g++-14', '-std=c++23 -O0'),
    'g14-20-O3-ndebug': ('g++-14', '-std=c++20 -O3 -DNDEBUG'),
    'g14-23-Os-uchar-ndebug': ('g++-14', '-std=c++23 -Os -DNDEBUG -funsigned-char'),
    'g14-20-O2-native': ('g++-14', '-std=c++20 -O2 -march=native'),
    'g13-20-O1': ('g++-13', '-std=c++20 -O1'),
    'g13-23-O2-ndebug': ('g++-13', '-std=c++23 -O2 -DNDEBUG'),
    'c18-20-O0-uchar': (framework.CLANG, '-std=c++20 -O0 -funsigned-char'),
    'c18-23-O3-ndebug': (framework.CLANG, '-std=c++23 -O3 -DNDEBUG'),
    'c18-23-O2-native-ndebug': (framework.CLANG, '-std=c++23 -O2 -DNDEBUG -march=native'),
    'c17-20-O2': ('clang++-17', '-std=c++20 -O2'),
    # thorough
    'g14-23-O3-native-ndebug': ('g++-14', '-std=c++23 -O3 -march=native -DNDEBUG'),
    'g14-23-Ofast': ('g++-14', '-std=c++23 -Ofast -DNDEBUG'),
    'g14-26-O2': ('g++-14', '-std=c++26 -O2'),
    'g14-20-O0-uchar-assert': ('g++-14', '-std=c++20 -O0 -funsigned-char -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG'),
    'g14-23-O2-fwrapv-noalias': ('g++-14', '-std=c++23 -O2 -fno-strict-aliasing -fwrapv'),
    'g14-23-O2-lto': ('g++-14', '-std=c++23 -O2 -flto -DNDEBUG'),
    'g13-20-O3-uchar-ndebug': ('g++-13', '-std=c++20 -O3 -funsigned-char -DNDEBUG'),
    'g13-20-Os': ('g++-13', '-std=c++20 -Os'),
    'c18-26-O2': (framework.CLANG, '-std=c++2c -O2'),
    'c18-20-Os-ndebug': (framework.CLANG, '-std=c++20 -Os -DNDEBUG'),
    'c18-20-O1-nobuiltin': (framework.CLANG, '-std=c++20 -O1 -fno-builtin'),
    'c17-20-O0-uchar-ndebug': ('clang++-17', '-std=c++20 -O0 -funsigned-char -DNDEBUG'),
    'c17-20-O3-native': ('clang++-17', '-std=c++20 -O3 -march=native -DNDEBUG'),
}
QUICK_VARIANTS = 11


def lines_of(r):
    d = {}
    for l in r['out'].split('\n'):
        f = l.split('\t')
        if f[0] == 'T' and len(f) == 3:
            d[f[1]] = f[2]
    return d


def compare_texts(ctx, base, other, who):
    """base, other: finished jobs. Reports the first lines that differ."""
    if base is None or other is None:
        return 0
    b, o = lines_of(base), lines_of(other)
    n = 0
    for k in b:
        if o.get(k) != b[k]:
            x, y = b[k], o.get(k, '(nothing)')
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            ctx.violation('%s:%s' % (who, k.split(' ')[0]), '%s: from character %d: %s, expected %s' % (k, i, y[i:i + 100], x[i:i + 100]))
            n += 1
            if n >= 3:
                break
    return len(b)


def transcript_run(ctx, plan, base_name):
    """plan: name -> (compiler, flags, defs). All must build when the base builds, and print the same."""
    futs = {}
    for name, (cc, fl, defs) in plan.items():
        for part in (0, 1):
            futs[name, part] = Unit('w_transcript.cpp', None, ('-DPART=%d %s' % (part, defs)).strip(), compiler=cc, flags=fl)
            ctx.unit(futs[name, part])
    for part in (0, 1):
        ctx.unit(futs[base_name, part]).result() # if this fails the tree does not build at all
    jobs, meta = [], {}
    for (name, part), u in futs.items():
        try:
            ctx.unit(u).result()
        except framework.BuildFailure as e:
            msg = [l for l in e.log.split('\n') if 'error' in l][:3]
            ctx.violation('%s:does not compile' % name, ' | '.join(msg) or e.log[-600:])
            continue
        j = Job('%s-part%d' % (name, part), [ctx.program('tr-%s-%d' % (name.replace('<', '').replace('/', '-'), part), [u]), '--seed=%d' % ctx.seed], group='part%d' % part, timeout=300, cpu=40)
        meta[j.name] = (name, part)
        jobs.append(j)
    ctx.run_jobs(jobs)
    got = {meta[r['name']]: r for r in ctx.results if r['name'] in meta}
    n = 0
    for (name, part), r in got.items():
        if name != base_name:
            n += compare_texts(ctx, got.get((base_name, part)), r, name)
    return n


@check('C20')
def c20(ctx):
    names = list(VARIANTS)[:QUICK_VARIANTS] if ctx.quick else list(VARIANTS)
    plan = {n: VARIANTS[n] + ('',) for n in names}
    n = transcript_run(ctx, plan, 'g14-23-O2')
    ctx.notes['build_configurations'] = {k: ' '.join(plan[k][:2]) for k in plan}
    ctx.notes['lines_compared_with_the_baseline'] = n
    return ctx.finish('A case is one line of a transcript: the digests of one message through several input forms, splits and copies with the sizes reported, or every text, comparison, cut and parse of one digest value, or one encoded input in five character types. The same workload is built in each configuration and each line compared with that of the first. '
                      'A configuration which does not compile while the first does is a violation. Distinct: lines of one configuration.', assumptions=['other architectures and standard libraries are not available here; big-endian branches are not executed'], min_evals=5000)


HEADERS = [('sha2/sha224', 'sha224'), ('sha2/sha256', 'sha256'), ('sha2/sha384', 'sha384'), ('sha2/sha512', 'sha512'), ('sha2/sha512/t', 'sha512t'), ('sha2/common', ''), ('sha3/common', ''), ('sha3/keccak', ''),
           ('sha3/sha3-224', 'sha3_224'), ('sha3/sha3-256', 'sha3_256'), ('sha3/sha3-384', 'sha3_384'), ('sha3/sha3-512', 'sha3_512'), ('sha3/shake128', 'shake128'), ('sha3/shake256', 'shake256'),
           ('xxhash', 'xxhash'), ('value', 'value'), ('fixed-string', 'fixed_string'), ('hasher', ''), ('simple', 'simple'), ('encoding/base', 'encoding_base'), ('encoding/encodings', 'encodings'),
           ('encoding/chunk-of-bits', 'chunk'), ('encoding/bit-buffer', 'bit_buffer'), ('encoding/concepts', ''), ('cthash', '')]
HEADER_CC = {'g14-20': ('g++-14', '-std=c++20 -O1'), 'g14-23': ('g++-14', '-std=c++23 -O1'), 'c18-20': (framework.CLANG, '-std=c++20 -O1'), 'c18-23': (framework.CLANG, '-std=c++23 -O1'), 'g13-20': ('g++-13', '-std=c++20 -O1'), 'c17-20': ('clang++-17', '-std=c++20 -O1')}


@check('C21')
def c21(ctx):
    import random
    rnd = random.Random(ctx.seed * 17 + 21)
    main = Unit('h_main.cpp')
    whole = {}
    # the base line: everything through the whole library
    for h, u in HEADERS:
        if u:
            whole[h] = Unit('h_use.cpp', None, '-DHEADER=<cthash/cthash.hpp> -DMORE="chunk_t.inc" -DUSE_%s -DNAME="%s"' % (u, u), compiler='g++-14', flags='-std=c++23 -O1', include=None)
    ccs = list(HEADER_CC)[:4] if ctx.quick else list(HEADER_CC)
    with open(os.path.join(ctx.tmp, 'chunk_t.inc'), 'w') as f:
        f.write('#include <cthash/cthash.hpp>\n#include <cthash/sha2/sha512/t.hpp>\n#include <cthash/encoding/chunk-of-bits.hpp>\n')
    inc = '-I' + ctx.tmp
    for u in whole.values():
        u.flags += ' ' + inc
        ctx.unit(u)
    alone = {}
    for cc in ccs:
        for h, u in HEADERS:
            alone[cc, h] = Unit('h_use.cpp', None, '-DHEADER=<cthash/%s.hpp> %s-DNAME="%s"' % (h, '-DUSE_%s ' % u if u else '', u or h), compiler=HEADER_CC[cc][0], flags=HEADER_CC[cc][1])
            ctx.unit(alone[cc, h])
    orders = {}
    for i in range(8 if ctx.quick else 60): # all headers in a random order, then all of it used
        cc = ccs[i % len(ccs)]
        l = [h for h, _ in HEADERS if h != 'cthash' or rnd.random() < .5]
        rnd.shuffle(l)
        if rnd.random() < .6:
            l = l[:rnd.randrange(2, len(l))]
        with open(os.path.join(ctx.tmp, 'order%d.inc' % i), 'w') as f:
            f.write(''.join('#include <cthash/%s.hpp>\n' % h for h in l))
        uses = ' '.join('-DUSE_' + u for h, u in HEADERS if u and h in l)
        orders[i] = (l, Unit('h_use.cpp', None, '-DMORE="order%d.inc" -DHEADER=<cthash/%s.hpp> %s -DNAME="order%d"' % (i, l[0], uses, i), compiler=HEADER_CC[cc][0], flags=HEADER_CC[cc][1] + ' ' + inc),
                     Unit('h_use.cpp', None, '-DMORE="chunk_t.inc" -DHEADER=<cthash/cthash.hpp> %s -DNAME="order%d"' % (uses, i), compiler='g++-14', flags='-std=c++23 -O1 ' + inc))
        ctx.unit(orders[i][1])
        ctx.unit(orders[i][2])
    single = {cc: Unit('h_use.cpp', None, '-DHEADER=<cthash-single-header.hpp> %s -DNAME="single"' % ' '.join('-DUSE_' + u for h, u in HEADERS if u and u != 'sha512t'), compiler=HEADER_CC[cc][0], flags=HEADER_CC[cc][1]) for cc in ccs}
    single2 = Unit('h_use.cpp', None, '-DHEADER=<cthash-single-header.hpp> -DUSE_sha256 -DUSE_value -DNAME="single_again"', compiler='g++-14', flags='-std=c++23 -O1')
    single_base = Unit('h_use.cpp', None, '-DMORE="chunk_t.inc" -DHEADER=<cthash/cthash.hpp> %s -DNAME="single"' % ' '.join('-DUSE_' + u for h, u in HEADERS if u and u != 'sha512t'), compiler='g++-14', flags='-std=c++23 -O1 ' + inc)
    single2_base = Unit('h_use.cpp', None, '-DMORE="chunk_t.inc" -DHEADER=<cthash/cthash.hpp> -DUSE_sha256 -DUSE_value -DNAME="single_again"', compiler='g++-14', flags='-std=c++23 -O1 ' + inc)
    for u in list(single.values()) + [single2, single_base, single2_base, main]:
        ctx.unit(u)
    # the base line has to build; if not, nothing can be said about single headers
    base_prog = ctx.program('whole', list(whole.values()) + [o[2] for o in orders.values()] + [single_base, single2_base, main], strict=True)

    def built(u, who):
        try:
            ctx.unit(u).result()
            return True
        except framework.BuildFailure as e:
            msg = [l for l in e.log.split('\n') if 'error' in l][:3]
            ctx.violation('%s:does not compile' % who, ' | '.join(msg) or e.log[-600:])
            return False

    def linked(name, units, who):
        try:
            return ctx.program(name, units, strict=True)
        except framework.BuildFailure as e:
            ctx.violation('%s:does not link' % who, e.log[-800:])
            return None
    jobs = [Job('whole', [base_prog])]
    pairs = []
    for cc in ccs:
        us = [alone[cc, h] for h, _ in HEADERS if built(alone[cc, h], '%s alone in %s' % (h, cc))]
        p = linked('alone-' + cc, us + [main], 'headers alone in ' + cc)
        if p:
            jobs.append(Job('alone-' + cc, [p]))
        if built(single[cc], 'single header in ' + cc):
            p = linked('single-' + cc, [single[cc], single2, main] if built(single2, 'single header') else [single[cc], main], 'single header in two units, ' + cc)
            if p:
                jobs.append(Job('single-' + cc, [p]))
    ok = [o for i, o in orders.items() if built(o[1], 'order %s' % ' '.join(o[0]))]
    p = linked('orders', [o[1] for o in ok] + [main], 'random orders')
    if p:
        jobs.append(Job('orders', [p]))
    plan = {'whole library': ('g++-14', '-std=c++23 -O1', ''), 'single header': ('g++-14', '-std=c++23 -O1', '-DHEADER=<cthash-single-header.hpp>'), 'single header clang': (framework.CLANG, '-std=c++20 -O1', '-DHEADER=<cthash-single-header.hpp>')}
    for name, (cc, fl, defs) in plan.items():
        for part in (0, 1):
            ctx.unit(Unit('w_transcript.cpp', None, ('-DPART=%d %s' % (part, defs)).strip(), compiler=cc, flags=fl))
    ctx.run_jobs(jobs)
    res = {r['name']: r for r in ctx.results}
    base = lines_of(res['whole']) if 'whole' in res else {}
    n = 0
    for name, r in res.items():
        if name == 'whole':
            continue
        for k, v in lines_of(r).items():
            if k not in base:
                if v != 'included':
                    ctx.violation('%s:%s' % (name, k), 'unexpected result ' + v[:200])
                continue
            n += 1
            if v != base[k]:
                i = next((i for i in range(min(len(v), len(base[k]))) if v[i] != base[k][i]), 0)
                ctx.violation('%s:%s' % (name, k), 'differs from the whole library at character %d: %s, expected %s' % (i, v[i:i + 120], base[k][i:i + 120]))
    n += transcript_run(ctx, plan, 'whole library')
    ctx.notes['lines_compared_with_the_whole_library'] = n
    ctx.notes['headers'] = [h for h, _ in HEADERS]
    ctx.extra_evals += len(alone) + len(orders) + len(single)
    ctx.extra_distinct += len(alone) + len(orders) + len(single)
    ctx.extra_samples.append('%d headers alone in %d compilers and language modes, %d random orders, e.g. %s' % (len(HEADERS), len(ccs), len(orders), ' '.join(orders[0][0][:6])))
    return ctx.finish('A case is one header included alone (twice) in one compiler and language mode and used, one random order of headers and its uses, or one line of the transcript of a program built from the single header. All units of one compiler are linked into one program and run, and every result is compared with that of the same use of the whole library. A unit which does not compile or link while the whole library does is a violation. '
                      'Distinct by unit and line.', assumptions=['the compiler and linker decide whether a unit can be built; what it computes is observed by running it'], min_evals=3000)


# ---------------------------------------------------------------- the command line tool

@check('C22')
def c22(ctx):
    import tool
    src = os.path.join(REPO, 'checksum.cpp')
    flags = {'rel': ('g++-14', '-std=c++20 -O2 -DNDEBUG'), 'asan': ('g++-14', framework.CONFIGS['asan'][1].replace('c++23', 'c++20'))}
    if not ctx.quick:
        flags['clang'] = (framework.CLANG, '-std=c++20 -O3')
    units = {k: Unit(src, None, '', compiler=c, flags=f) for k, (c, f) in flags.items()}
    ctx.prebuild(list(units.values()) + [Unit('reftool.cpp'), Unit('ref.cpp')])
    progs = {k: ctx.program('checksum-' + k, [u], strict=True) for k, u in units.items()}
    ref = ctx.program('reftool', [Unit('reftool.cpp'), Unit('ref.cpp')], strict=True)
    oracle(ctx)
    tool.run(ctx, progs, ref, framework)
    return ctx.finish('A case is one run of the checksum program: every listed algorithm name on scratch files of sizes around blocks and pages up to a few MB (thorough: more than 4 GiB, sparse) with several contents, expected output from hashlib (or the validated reference for xxHash), exact standard output, empty standard error of success apart from timing, exit status 0, and the file unchanged (content, size, mode, modification time); '
                      'and runs which must fail cleanly: missing arguments, every name with every single edit, missing files, directories, unreadable files (as an unprivileged user), FIFOs, special files, names with unusual characters. Distinct by arguments and content.', min_evals=500)


# ---------------------------------------------------------------- bits

@check('C24')
def c24(ctx):
    widths = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 64]
    plans = ['-DIN_WIDTH=%d' % w for w in widths] + ['-DBASIC=1,5,8,16,24', '-DBASIC=30,32', '-DBASIC=48', '-DBASIC=63', '-DBASIC=64']
    cfgs = ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan', 'dbg']
    for c in cfgs:
        ctx.prebuild([Unit('w_bits.cpp', c, p) for p in plans])
    jobs = []
    for c in cfgs:
        for p in plans:
            prog = ctx.program('bits-%s-%s' % (c, p[2:].replace(',', '_').replace('=', '')), [Unit('w_bits.cpp', c, p)] + common())
            for s in seeds(ctx):
                jobs.append(Job('bits-%s-%s-s%d' % (c, p[2:], s), [prog, '--seed=%d' % s, '--rounds=%d' % ((150 if c == 'clrel' else 40) if ctx.quick else 2000)], group='bits-%s-s%d' % (p, s), timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one state of a bit buffer in a random history of pushes, pops, alignment and padding, compared with a queue of bits: the front, size(), unused_size(), empty(), full(), readiness to push and to pop, and the counts reported by filling. All pairs of input and output width (15 x 29) whose common multiple fits 64 bits, and five capacities of the underlying buffer with all widths up to the capacity. '
                      'Distinct by width pair, number of queued bits and operation.', min_evals=20000)


@check('C25')
def c25(ctx):
    plans = []
    for w in ('1,2,3,4', '5,6,7,8', '9,10,11,12', '13,16,24,32', '40,48,56,64'):
        plans.append('-DELEMENT=uint8_t -DELEMENT_NAME="uint8_t" -DWIDTHS=' + w)
    others = [('std::byte', 'byte', '1,3,5,6,8,12,20,24,40'), ('char', 'char', '1,5,6,7,24,56'), ('int8_t', 'int8_t', '2,3,5,6,11,16,32'), ('uint16_t', 'uint16_t', '1,2,3,4,6'), ('uint16_t', 'uint16_t', '8,12,16,24'), ('uint16_t', 'uint16_t', '32,48,64'),
              ('int16_t', 'int16_t', '1,3,6,12,16,24,48'), ('uint32_t', 'uint32_t', '1,2,4,8,16,32,64'), ('int32_t', 'int32_t', '1,4,8,16,64'), ('uint64_t', 'uint64_t', '1,2,4,8,16,32,64'), ('int64_t', 'int64_t', '1,4,32,64')]
    for t, n, w in others:
        plans.append('-DELEMENT=%s -DELEMENT_NAME="%s" -DWIDTHS=%s -DFEW_RANGES' % (t, n, w))
    cfgs = ['clrel', 'asan'] if ctx.quick else ['clrel', 'asan', 'rel', 'casan']
    for c in cfgs:
        ctx.prebuild([Unit('w_chunk.cpp', c, p) for p in plans])
    jobs = []
    for c in cfgs:
        for i, p in enumerate(plans):
            prog = ctx.program('chunk-%s-%d' % (c, i), [Unit('w_chunk.cpp', c, p)] + common())
            for s in seeds(ctx):
                jobs.append(Job('chunk-%s-%d-s%d' % (c, i, s), [prog, '--seed=%d' % s, '--random=%d' % (60 if ctx.quick else 1500)], group='chunk-%d-s%d' % (i, s), timeout=600))
    ctx.run_jobs(jobs)
    return ctx.finish('A case is one range split into groups of n bits, with and without padding groups: value, missing bits and padding mark of every group, the number of groups, size() and a second pass are compared with a split of the bit string of the elements. Elements: bytes and integers of 8 to 64 bits, signed and unsigned; n from 1 to 64 where the common multiple fits 64 bits; all lengths up to several groups, '
                      'patterns with single bits, high bits and random content; vectors, spans, lists, deques, views and temporaries. Distinct by n, element type, range kind and content.', min_evals=20000)
