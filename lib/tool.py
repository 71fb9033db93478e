"""Runs the checksum program on scratch files and judges what it prints, how it ends and what it leaves behind."""
import concurrent.futures, hashlib, os, random, re, shutil, stat, subprocess, tempfile, threading

BITS = (32, 64, 128, 256, 512, 1024, 2048)
NAMES = ['sha-224', 'sha-256', 'sha-384', 'sha-512', 'sha-512/224', 'sha-512/256', 'sha3-224', 'sha3-256', 'sha3-384', 'sha3-512'] + \
        ['shake-%d/%d' % (s, n) for s in (128, 256) for n in BITS] + ['xxhash32', 'xxhash64']
NOBODY = 65534
BIG = ((1 << 32) + 29, {'xxhash64': '6f466d83c0a97804', 'xxhash32': 'db80a746', 'sha-256': '9b1f23ae2e7215632d03ef31299985d3dcdfcce6b53e9d66e4c235ce9d1abc63'})


def expected(name, path, ref):
    if name.startswith('xxhash'):
        return subprocess.run([ref, 'xxh' + name[6:], path], capture_output=True, text=True, timeout=120, check=True).stdout.strip()
    b = open(path, 'rb').read()
    m = re.fullmatch(r'shake-(\d+)/(\d+)', name)
    if m:
        return hashlib.new('shake_' + m.group(1), b).hexdigest(int(m.group(2)) // 8)
    n = name.replace('sha-512/', 'sha512_').replace('sha-', 'sha').replace('sha3-', 'sha3_')
    return hashlib.new(n, b).hexdigest()


def near_misses(rnd, count):
    out = []
    for n in NAMES:
        for i in range(len(n)):
            out.append(n[:i] + n[i + 1:])
            out.append(n[:i] + n[i].swapcase() + n[i + 1:])
            out.append(n[:i] + rnd.choice('0123456789-/_ asx\x01') + n[i + 1:])
            out.append(n[:i] + rnd.choice('0123456789-/_ asx\xff') + n[i:])
            if i + 1 < len(n):
                out.append(n[:i] + n[i + 1] + n[i] + n[i + 2:])
        out += [n + c for c in ' \n0/-\t'] + [' ' + n, n * 2, n.upper(), n.replace('-', ''), n.replace('/', '-'), n.split('/')[0] if '/' in n else n + '/8', n[:-2], n + '0' * 300]
    for s in (128, 256):
        out += ['shake-%d/%d' % (s, b) for b in (0, 1, 8, 16, 24, 31, 33, 48, 96, 160, 192, 224, 384, 2047, 2049, 4096, -32, 2 ** 32 + 32)] + ['shake-%d/+32' % s, 'shake-%d/032' % s]
    out += ['sha-512/%d' % t for t in (0, 1, 8, 128, 160, 192, 223, 225, 255, 257, 384, 512)]
    out += ['', ' ', '-', '--help', '-h', 'md5', 'sha-1', 'sha1', 'sha', 'xxhash', 'xxhash128', 'xxh3', 'blake2b', '%s%n', 'A' * 5000, '\xff\xfe', '../sha-256']
    out = sorted(set(out) - set(NAMES))
    rnd.shuffle(out)
    # the systematic ones first
    return out[:count] if count else out


def run(ctx, progs, ref, framework):
    rnd = random.Random(ctx.seed * 7919 + 22)
    scratch = tempfile.mkdtemp(prefix='vchecksum-')
    os.chmod(scratch, 0o755)
    lock = threading.Lock()
    seen = set()
    counts = {}
    try:
        _run(ctx, progs, ref, framework, rnd, scratch, lock, seen, counts)
    finally:
        for d, ds, _ in os.walk(scratch):
            for x in ds:
                os.chmod(os.path.join(d, x), 0o755)
        shutil.rmtree(scratch)
    ctx.extra_distinct += len(seen)
    ctx.notes['runs'] = counts


def _run(ctx, progs, ref, framework, rnd, scratch, lock, seen, counts):
    bins = {}
    for k, p in progs.items(): # readable for the unprivileged user as well
        bins[k] = os.path.join(scratch, 'checksum-' + k)
        shutil.copy(p, bins[k])
        os.chmod(bins[k], 0o755)
    env = dict(os.environ, **framework.SAN_ENV)
    data = os.path.join(scratch, 'data')
    os.mkdir(data)
    os.chmod(data, 0o755)

    def execute(cfg, args, cwd=None, stdin=None, user=None, timeout=60):
        for attempt in (1, 2):
            try:
                p = subprocess.run([os.fsencode(bins[cfg])] + [a if isinstance(a, bytes) else os.fsencode(a) for a in args], stdin=stdin or subprocess.DEVNULL, capture_output=True, cwd=cwd or data, env=env, timeout=timeout,
                                   user=user, group=user, extra_groups=[] if user else None)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                if stdin:
                    break
        return None, b'', b'no end'

    def note(kind, key, evals=1):
        with lock:
            ctx.extra_evals += evals
            counts[kind] = counts.get(kind, 0) + 1
            seen.add(key)

    def crashed(rc, err):
        return rc is None or rc < 0 or rc in (96, 97, 98, 99) or b'Sanitizer' in err or b'runtime error' in err or b'terminate called' in err

    def show(args):
        return repr([a if isinstance(a, str) else a.decode('utf-8', 'backslashreplace') for a in args])[:300]

    def good(kind, cfg, name, arg, want, key, path=None, cwd=None, stdin=None, user=None):
        before = snapshot(path) if path else None
        rc, out, err = execute(cfg, [name, arg], cwd, stdin, user)
        note(kind, (name, key))
        w = show([name, arg]) + ' ' + key
        if crashed(rc, err):
            ctx.violation('%s:crash' % kind, '%s: %s: %s' % (w, rc, err[-600:].decode('utf-8', 'replace')))
            return
        if out != want.encode() + b'\n':
            ctx.violation('%s:output of %s' % (kind, name), '%s: printed %r, expected %r' % (w, out[:300], want))
        if rc != 0:
            ctx.violation('%s:exit status' % kind, '%s: status %s, %r' % (w, rc, err[:200]))
        if path and snapshot(path) != before:
            ctx.violation('%s:file changed' % kind, '%s: %s, was %s' % (w, snapshot(path), before))

    def bad(kind, cfg, args, key, cwd=None, stdin=None, user=None):
        rc, out, err = execute(cfg, args, cwd, stdin, user)
        note(kind, (kind, key))
        w = show(args) + ' ' + key
        if crashed(rc, err):
            ctx.violation('%s:crash' % kind, '%s: %s: %s' % (w, rc, err[-600:].decode('utf-8', 'replace')))
            return
        if rc == 0:
            ctx.violation('%s:exit status 0' % kind, '%s: printed %r' % (w, out[:200]))
        if re.search(rb'[0-9a-fA-F]{8}', out):
            ctx.violation('%s:printed something like a digest' % kind, '%s: printed %r' % (w, out[:200]))
        if not err.strip():
            ctx.violation('%s:nothing on standard error' % kind, '%s: status %s' % (w, rc))

    def make(path, content, mode=0o644):
        with open(path, 'wb') as f:
            f.write(content)
        os.chmod(path, mode)
        os.utime(path, ns=(10 ** 18 + 12345, 10 ** 18 + 54321))
        return path

    # ---- digests of files
    page = os.sysconf('SC_PAGESIZE')
    sizes = [0, 1, 3, 4, 8, 15, 16, 31, 32, 55, 56, 63, 64, 65, 71, 72, 103, 104, 111, 112, 127, 128, 129, 135, 136, 143, 144, 167, 168, 255, 256, 257, 1000, page - 1, page, page + 1, 2 * page, 16 * page, 65536 + 7, (1 << 20) + 3]
    if not ctx.quick:
        sizes += [2, 5, 7, 33, 119, 120, 191, 192, 271, 272, 335, 336, 3 * page, 4 * page - 1, 1 << 18, (1 << 22) + 9, 1 << 24, (1 << 24) + 1]
    sizes += [rnd.randrange(1, 20000) for _ in range(4 if ctx.quick else 25)]
    kinds = {'random': lambda n: rnd.randbytes(n), 'zeros': lambda n: bytes(n), 'ones': lambda n: b'\xff' * n, 'text': lambda n: (b'line of text\r\n\0\x1a' * (n // 16 + 1))[:n]}
    work = []
    files = []
    for i, n in enumerate(sizes):
        ks = list(kinds) if not ctx.quick else ['random' if i % 3 else 'text'] + (['zeros', 'ones'] if n in (64, page) else [])
        for k in ks:
            files.append((make(os.path.join(data, 'f%d-%s-%d' % (i, k, n)), kinds[k](n)), k, n))
    pool = concurrent.futures.ThreadPoolExecutor(framework.JOBS)
    want = {}
    futs = {pool.submit(expected, name, p, ref): (name, p) for name in NAMES for p, _, _ in files}
    for f, k in futs.items():
        want[k] = f.result()
    assert len(want[('shake-128/2048', files[0][0])]) == 512
    for p, k, n in files:
        for name in NAMES:
            for cfg in bins:
                if cfg != 'rel' and n > (1 << 20):
                    continue
                work.append((good, 'file', cfg, name, p, want[name, p], '%s of %d bytes' % (k, n), p))
    # ---- ways to name a file
    small = make(os.path.join(data, 'small'), b'content of the file')
    sw = {name: expected(name, small, ref) for name in NAMES}
    spelled = [('name with spaces', 'a file with  spaces '), ('name like an option', '-n'), ('name in UTF-8', 'Grüße-\u4e2d'), ('name not in UTF-8', b'\xff\xfe\x80'), ('name with a newline', 'a\nb'), ('long name', 'x' * 255), ('name with percents', '%s%n%d'), ('name like an algorithm', 'sha-256'), ('one letter', 'f')]
    for what, n in spelled:
        pth = os.path.join(os.fsencode(data), n if isinstance(n, bytes) else os.fsencode(n))
        make(pth, b'content of the file')
        for name in (['sha-256', 'xxhash32', 'shake-128/32'] if ctx.quick else NAMES):
            for cfg in bins:
                work.append((good, 'naming', cfg, name, n, sw[name], what, pth))
    os.symlink('small', os.path.join(data, 'link'))
    os.symlink('link', os.path.join(data, 'link2'))
    os.link(small, os.path.join(data, 'hard'))
    deep = data
    for _ in range(12):
        deep = os.path.join(deep, 'd' * 200)
        os.mkdir(deep)
        os.chmod(deep, 0o755)
    make(os.path.join(deep, 'f'), b'content of the file')
    ro = make(os.path.join(data, 'readonly'), b'content of the file', 0o444)
    wx = make(os.path.join(data, 'otherbits'), b'content of the file', 0o7777)
    for what, arg in (('symbolic link', 'link'), ('link to a link', 'link2'), ('hard link', 'hard'), ('long path', os.path.join(deep, 'f')), ('path with dots', '.././data/./small'), ('double slashes', data + '//small'), ('read only', ro), ('all permissions', wx)):
        for cfg in bins:
            for name in ('sha-256', 'sha3-512', 'xxhash64'):
                work.append((good, 'naming', cfg, name, arg, sw[name], what, os.path.join(data, arg)))
    for cfg in bins: # only readable: the tool must not need more
        for name in NAMES:
            work.append((good, 'unprivileged', cfg, name, ro, sw[name], 'as an unprivileged user', ro, None, None, NOBODY))
    shm = None
    if os.access('/dev/shm', os.W_OK):
        shm = tempfile.mkdtemp(prefix='vchecksum-', dir='/dev/shm')
        p = make(os.path.join(shm, 'f'), b'content of the file')
        for cfg in bins:
            work.append((good, 'other file system', cfg, 'sha-512', p, sw['sha-512'], 'in memory', p))

    # ---- what has to fail
    misses = near_misses(rnd, 700 if ctx.quick else 0)
    for i, m in enumerate(misses):
        if '\0' in m:
            continue
        for cfg in (bins if not ctx.quick else [list(bins)[i % len(bins)]]):
            work.append((bad, 'unknown name', cfg, [os.fsencode(m) if '\xff' not in m else m.encode('latin-1'), small], 'name %r' % m))
    for m in ['', 'sha-25', 'md5', 'shake-128/16']: # unknown, and nothing to read either
        for t in ['', 'none', data]:
            work.append((bad, 'unknown name', 'asan', [m, t], 'name %r and no file' % m))
    for cfg in bins:
        for args in ([], *[[n] for n in NAMES], [small], [''], ['-h'], ['--help'], ['unknown']):
            work.append((bad, 'missing argument', cfg, args, '%d arguments %s' % (len(args), args)))
    locked = make(os.path.join(data, 'locked'), b'secret', 0)
    closed = os.path.join(data, 'closed')
    os.mkdir(closed)
    make(os.path.join(closed, 'f'), b'secret')
    os.chmod(closed, 0)
    os.symlink('loop2', os.path.join(data, 'loop1'))
    os.symlink('loop1', os.path.join(data, 'loop2'))
    os.symlink('nowhere', os.path.join(data, 'dangling'))
    empty_dir = os.path.join(data, 'empty_dir')
    os.mkdir(empty_dir)
    for cfg in bins:
        for name in NAMES:
            for what, arg, user in (('missing file', 'no such file', None), ('missing directory', 'none/file', None), ('file as a directory', 'small/x', None), ('empty path', '', None), ('directory', data, None), ('empty directory', empty_dir, None), ('directory with a slash', 'data/', None) if False else ('current directory', '.', None),
                                    ('file with a trailing slash', 'small/', None), ('dangling link', 'dangling', None), ('loop of links', 'loop1', None), ('unreadable file', locked, NOBODY), ('file in an unreadable directory', os.path.join(closed, 'f'), NOBODY), ('too long name', 'y' * 256, None), ('too long path', './' * 3000 + 'small', None)):
                work.append((bad, what, cfg, [name, arg], name, None, None, user))

    def piped(cfg, name):
        """A pipe is no file which can be mapped: no digest of it can be right unless it is that of its content."""
        r, w = os.pipe()
        try:
            os.write(w, b'content of the file')
            os.close(w)
            w = None
            rc, out, err = execute(cfg, [name, '/dev/stdin'], stdin=r)
            note('pipe', ('pipe', name))
            if crashed(rc, err):
                ctx.violation('pipe:crash', '%s: %s %s' % (name, rc, err[-500:]))
            elif not ((rc != 0 and not re.search(rb'[0-9a-f]{8}', out) and err.strip()) or (rc == 0 and out == sw[name].encode() + b'\n')):
                ctx.violation('pipe:output', '%s: status %s, printed %r, %r' % (name, rc, out[:200], err[:200]))
        finally:
            os.close(r)
            if w is not None:
                os.close(w)

    def redirected(cfg, name):
        with open(small, 'rb') as f:
            good('redirected', cfg, name, '/dev/stdin', sw[name], 'a file as /dev/stdin', small, stdin=f)
    for cfg in bins:
        for name in NAMES:
            work.append((piped, cfg, name))
            work.append((redirected, cfg, name))

    # ---- more than 4 GiB
    def big(name):
        p = os.path.join(data, 'big')
        n, w = BIG
        rc, out, err = execute('rel', [name, p], timeout=300)
        note('larger than 4 GiB', (name, 'big'))
        if rc != 0 or out != w[name].encode() + b'\n':
            ctx.violation('big:output of %s' % name, 'file of %d bytes: status %s, printed %r, %r, expected %s' % (n, rc, out[:200], err[:200], w[name]))
    with open(os.path.join(data, 'big'), 'wb') as f:
        f.truncate(BIG[0])
        f.write(b'start')
        f.seek(BIG[0] - 3)
        f.write(b'end')
    work += [(big, n) for n in BIG[1] if not (ctx.quick and n == 'sha-256')]

    before = sorted(os.listdir(data))
    try:
        rnd.shuffle(work)
        for f in [pool.submit(*w) for w in work]:
            f.result()
    finally:
        pool.shutdown()
        if shm:
            shutil.rmtree(shm)
    if sorted(os.listdir(data)) != before:
        ctx.violation('scratch directory changed', str(set(os.listdir(data)) ^ set(before)))
    # the unprivileged user really could not read these
    if os.geteuid() == 0 and subprocess.run(['cat', locked], user=NOBODY, group=NOBODY, extra_groups=[], capture_output=True, cwd='/').returncode == 0:
        raise framework.HarnessError('an unreadable file was readable')
    ctx.extra_samples += ['checksum sha3-256 on %d bytes (%s)' % (n, k) for _, k, n in files[:6]] + ['unknown name %r' % m for m in misses[:8]]


def snapshot(path):
    st = os.stat(path)
    return st.st_size, stat.S_IMODE(st.st_mode), st.st_mtime_ns, st.st_ctime_ns, st.st_ino, (hashlib.sha256(open(path, 'rb').read()).hexdigest() if st.st_size < (1 << 21) else None)
