"""The oracle is checked against implementations nobody here wrote, in every run that relies on it."""
import base64, ctypes, hashlib, subprocess


def data():
    return bytes((i * 7 + (i >> 3) + 3) & 255 for i in range(3000))


def reference(prog, framework):
    d = data()
    out = subprocess.run([prog], capture_output=True, text=True, timeout=60).stdout
    try:
        x = ctypes.CDLL('libxxhash.so.0')
        for n, t in (('XXH32', ctypes.c_uint32), ('XXH64', ctypes.c_uint64)):
            getattr(x, n).restype = t
            getattr(x, n).argtypes = [ctypes.c_char_p, ctypes.c_size_t, t]
    except OSError:
        x = None
    kat = {('xxh32', 0, 0): '02cc5d05', ('xxh64', 0, 0): 'ef46db3751d8e999'}
    n_d = n_e = 0
    for line in out.splitlines():
        f = line.split(' ')
        if f[0] == 'D':
            name, n, seed, got = f[1], int(f[2]), int(f[3]), f[4]
            if name.startswith('xxh'):
                if x:
                    exp = ('%08x' % x.XXH32(d[:n], n, seed)) if name == 'xxh32' else ('%016x' % x.XXH64(d[:n], n, seed))
                else:
                    exp = kat.get((name, n, seed))
                    if exp is None:
                        continue
            elif name.startswith('shake'):
                exp = hashlib.new(name, d[:n]).hexdigest(400)
            else:
                try:
                    exp = hashlib.new(name, d[:n]).hexdigest()
                except ValueError:
                    continue
            if exp != got:
                raise framework.HarnessError('oracle self-test: %s n=%d seed=%d' % (name, n, seed))
            n_d += 1
        elif f[0] == 'E':
            name, n, got = f[1], int(f[2]), f[3]
            m = d[:n]
            exp = {'base64': lambda: base64.b64encode(m), 'base64_no_padding': lambda: base64.b64encode(m).rstrip(b'='), 'base64url': lambda: base64.urlsafe_b64encode(m).rstrip(b'='),
                   'base32': lambda: base64.b32encode(m), 'base32_no_padding': lambda: base64.b32encode(m).rstrip(b'='),
                   'z_base32': lambda: base64.b32encode(m).rstrip(b'=').translate(bytes.maketrans(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567', b'ybndrfg8ejkmcpqxot1uwisza345h769')),
                   'base16': lambda: m.hex().encode(), 'BASE16': lambda: m.hex().upper().encode(), 'base2': lambda: ''.join('%d%d%d%d%d%d%d%d' % tuple(b >> i & 1 for i in range(7, -1, -1)) for b in m).encode(),
                   'base4': lambda: ''.join('%d%d%d%d' % tuple(b >> i & 3 for i in (6, 4, 2, 0)) for b in m).encode(), 'base8': lambda: octal(m)}[name]()
            if exp.decode() != got:
                raise framework.HarnessError('oracle self-test: encoding %s n=%d %s %s' % (name, n, exp, got))
            n_e += 1
    if n_d < 400 or n_e < 400:
        raise framework.HarnessError('oracle self-test incomplete: %d %d' % (n_d, n_e))
    return n_d + n_e


def octal(m):
    out = ''
    for i in range(0, len(m), 3):
        c = m[i:i + 3]
        bits = ''.join('{:08b}'.format(b) for b in c)
        digits = -(-len(bits) // 3)
        bits = bits.ljust(digits * 3, '0')
        out += ''.join(str(int(bits[j:j + 3], 2)) for j in range(0, len(bits), 3)).ljust(8, '=')
    return out.encode()
