#!/usr/bin/env python3
"""Writes golden/giant.txt: digests of prefixes of the giant message, computed by
hashlib (OpenSSL) and libxxhash, never by the library under test.
usage: gen_golden.py BLOCKFILE   (BLOCKFILE = output of w_giant --dump=1)"""
import ctypes, hashlib, sys, os
from concurrent.futures import ProcessPoolExecutor
block = open(sys.argv[1], 'rb').read()
assert len(block) == 16 << 20
TOTALS = sorted({(1 << 28) + 5, (1 << 29) - 1, 1 << 29, (1 << 29) + 9, (1 << 31) - 1, (1 << 31), (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 15, (1 << 32) + 31, (1 << 32) + 54321})
H = {'sha224': 'sha224', 'sha256': 'sha256', 'sha384': 'sha384', 'sha512': 'sha512', 'sha512_224': 'sha512_224', 'sha512_256': 'sha512_256',
     'sha3_224': 'sha3_224', 'sha3_256': 'sha3_256', 'sha3_384': 'sha3_384', 'sha3_512': 'sha3_512', 'shake128': 'shake_128', 'shake256': 'shake_256'}
def data(off, n):
    while n:
        o = off % len(block); k = min(n, len(block) - o)
        yield block[o:o + k]; off += k; n -= k
def run(a):
    out = []; off = 0
    if a.startswith('xxh'):
        x = ctypes.CDLL('libxxhash.so.0'); bits = a[3:]
        create, reset, update, digest = (getattr(x, 'XXH%s_%s' % (bits, n)) for n in ('createState', 'reset', 'update', 'digest'))
        create.restype = ctypes.c_void_p
        s = ctypes.c_void_p(create())
        T = ctypes.c_uint32 if bits == '32' else ctypes.c_uint64
        reset.argtypes = [ctypes.c_void_p, T]
        update.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        digest.argtypes = [ctypes.c_void_p]; digest.restype = T
        reset(s, 0)
        up = lambda b: update(s, b, len(b))
        dg = lambda: '%0*x' % (int(bits) // 4, digest(s))
    else:
        h = hashlib.new(H[a]); up = h.update
        dg = (lambda: h.hexdigest(64)) if 'shake' in a else h.hexdigest
    for t in TOTALS:
        for b in data(off, t - off): up(b)
        off = t; out.append((a, t, dg()))
    return out
if __name__ == '__main__':
    with ProcessPoolExecutor(8) as ex:
        rows = [r for rs in ex.map(run, list(H) + ['xxh32', 'xxh64']) for r in rs]
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'golden', 'giant.txt'), 'w') as f:
        for r in rows: f.write('%s %d %s\n' % r)
