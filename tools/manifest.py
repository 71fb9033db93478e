#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after a change of the list below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('differential monitoring against a validated reference under ASan+UBSan and in release builds, golden digests beyond 4 GiB', 'every length over several blocks, eight kinds of content, all two-way splits, four sizes up to more than 4 GiB; trusts the reference, which every run compares with hashlib'),
 'C02': ('differential monitoring against a validated reference, all 63 values of t instantiated', 'all 63 t, lengths over several blocks, more than 4 GiB for the two standard values; trusts the reference, which runs the IV generation itself'),
 'C03': ('differential monitoring against a validated reference under ASan+UBSan and in release builds', 'as C01'),
 'C04': ('differential monitoring of XOF output against a validated reference', 'every output length of 1 to 360 bytes (thorough: 1200) and selected ones up to 20000 (100000)'),
 'C05': ('differential monitoring against a validated reference (compared with libxxhash), seeds included', 'lengths over several stripes, special and random seeds, more than 4 GiB'),
 'C06': ('online monitor: every split of a message against its one-update digest, size() after every update', 'all two-way cuts over two blocks and more, dense three-way cuts, 70001 updates, 4 GiB in two pieces'),
 'C07': ('shadow-model monitor over random histories of many live hashers', 'random histories of construct, update, copy, move, assign, finish; copies at every position of two blocks'),
 'C08': ('ThreadSanitizer (gcc and clang run-times) under a barrier-started stress workload, results compared after the join', 'races between accesses both of which the workload reaches'),
 'C09': ('the compiler evaluates the use; the run-time execution of the same code is the oracle', 'sampled messages around block boundaries, five compilers and modes; a use which stops being constant is a violation'),
 'C10': ('ASan+UBSan (gcc, clang), MemorySanitizer, valgrind, guard pages and assertions under a hostile workload', 'the executions of the workload; says nothing about paths it does not reach'),
 'C11': ('interposed allocation functions and exception monitor around every operation', 'counts operator new, malloc and throws of all operations over all lengths'),
 'C12': ('differential monitoring of encoded text against a validated reference', 'all lengths to several groups, single-bit patterns, nine element types, five character types, many kinds of range'),
 'C13': ('cross-path monitor: all printing paths of one digest compared with each other', 'digest types of all algorithms and tags with other defaults'),
 'C14': ('exhaustive-neighbourhood monitoring of accepted and rejected names', 'all single edits of all names over 255 characters, all two-character texts, long and random ones'),
 'C15': ('round-trip and differential monitoring of parsed digests, generated literals', 'every byte value at every position in three case mixes and five character types'),
 'C16': ('comparison monitor against memcmp', 'differences at every position, high bytes, sorting'),
 'C17': ('comparison monitor against memcmp of the common bytes', 'pairs of output lengths, one difference at each byte inside and outside of the common part'),
 'C18': ('monitor of cuts against the bytes of the value', 'every k of twelve and more digest types'),
 'C19': ('cross-form monitor: each input form against one span of std::byte', 'all accepted forms, mixed, over three blocks'),
 'C20': ('transcript comparison between executions of differently built programs', 'eleven (thorough: 24) combinations of compiler, language mode, optimisation, NDEBUG, plain char and instruction set'),
 'C21': ('every header built alone, linked and executed; outputs compared with those of the whole library', 'all headers, four (six) compilers and modes, random orders, two units, broad transcript of the single header'),
 'C22': ('process-level monitor of exit status, output and files over generated files, names and faults', 'all names, sizes around blocks and pages and above 4 GiB, unreadable and special files, hundreds of near-miss names, ASan+UBSan build included'),
 'C23': ('iteration monitor over views with independent, copied iterators', 'random histories of advancing, copying, comparing over all encodings and several ranges'),
 'C24': ('online model monitor: a queue of bits beside every buffer', 'all width pairs whose common multiple fits 64 bits, random histories'),
 'C25': ('differential monitoring of groups against the bit string', 'all n from 1 to 64 which compile, nine element types'),
 'C26': ('environment-perturbation monitor: dirty memory, alignments, neighbours, history; snapshots of surroundings', 'all algorithms, 64 alignments, old memory contents, lengths over two blocks'),
}
m = dict(version=1, setup_cmd='python3 -m py_compile check.py lib/framework.py lib/checks.py lib/selftest.py lib/tool.py && mkdir -p build evidence',
         checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
                      technique=t, level='exploration', level_note='Held on the executions observed: ' + n + '.') for p, (t, n) in T.items()],
         not_applicable=[dict(property='C27', reason='It is about programs which must not compile: no execution exists that a run-time monitor could observe, the deciding step would be the type checker.')],
         notes='No hooks: everything is observed at public interfaces. fix: commits in /repo are listed in known_findings.txt and DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
