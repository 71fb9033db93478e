"""Builds harnesses from /repo's working tree, runs them as monitored processes,
collects what their oracles observed, and turns that into a verdict and evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
JOBS = max(2, min(8, os.cpu_count() or 2))

CLANG = '/usr/bin/clang++-18'
GCC = 'g++-14'
CONFIGS = {
    # name: (compiler, flags)
    'asan':   (GCC, '-std=c++23 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
    'casan':  (CLANG, '-std=c++23 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,local-bounds -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
    'rel':    (GCC, '-std=c++23 -O2 -DNDEBUG'),
    'clrel':  (CLANG, '-std=c++23 -O2 -DNDEBUG'),
    'cldbg':  (CLANG, '-std=c++23 -O1'),
    'dbg':    (GCC, '-std=c++23 -O1 -D_GLIBCXX_ASSERTIONS'),
    'tsan':   (GCC, '-std=c++23 -O1 -g1 -fsanitize=thread'),
    'ctsan':  (CLANG, '-std=c++23 -O1 -g1 -fsanitize=thread'),
    'vg':     (GCC, '-std=c++23 -O1 -g1'),
    'msan':   (CLANG, '-std=c++23 -O1 -g1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins -fno-sanitize-recover=all'),
}
PLAIN = (GCC, '-std=c++20 -O2')
ALGOS = ['sha224', 'sha256', 'sha384', 'sha512', 'sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'shake128', 'shake256', 'xxh32', 'xxh64']

SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:report_signal_unsafe=0',
    'MSAN_OPTIONS': 'exitcode=96',
}


UNBUILT = '(not built)'


class HarnessError(Exception):
    pass


class BuildFailure(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def repo_state():
    """Hash of every source file a harness may include (cache key)."""
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, 'include'), HARNESS):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.cpp', '.inc', '.h'))]
    files.append(os.path.join(REPO, 'checksum.cpp'))
    for f in sorted(files):
        try:
            b = open(f, 'rb').read()
        except OSError:
            continue
        h.update(f.encode() + b'\0' + hashlib.sha256(b).digest())
    return h.hexdigest()


class Unit:
    """One object file: source, defines, config (None: the uninstrumented plain one)."""
    def __init__(self, src, cfg=None, defs='', compiler=None, flags=None, include=None):
        self.src = src if os.path.isabs(src) else os.path.join(HARNESS, src)
        c, f = CONFIGS[cfg] if cfg else PLAIN
        self.cc = compiler or c
        self.flags = flags if flags is not None else f
        self.defs = defs
        self.include = include or os.path.join(REPO, 'include')

    def cmd(self, out):
        return [self.cc, *self.flags.split(), *self.defs.split(), '-I' + self.include, '-I' + HARNESS, '-c', self.src, '-o', out]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.state = repo_state()
        self.results = []          # finished jobs
        self.violations = []       # (key, detail, job)
        self.notes = {}
        self.unbuilt = []
        self.extra_evals = 0
        self.extra_distinct = 0
        self.extra_samples = []
        self.stop = threading.Event()
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
        self._units = {}
        self._lock = threading.Lock()
        self._pool = ThreadPoolExecutor(JOBS)
        self._runpool = ThreadPoolExecutor(JOBS)

    # ---- building
    def _compile(self, cmd, out):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode != 0:
            raise BuildFailure(' '.join(cmd), p.stdout[-4000:])
        return out

    def unit(self, u):
        """Future of the object file path."""
        probe = u.cmd('OUT')
        key = hashlib.sha256((self.state + '\0' + '\0'.join(probe) + (open(u.src).read() if os.path.exists(u.src) else '')).encode()).hexdigest()[:32]
        with self._lock:
            if key in self._units:
                return self._units[key]
            out = os.path.join(BUILD, 'o-%s.o' % key)

            def go():
                if os.path.exists(out):
                    os.utime(out)
                    return out
                tmp = os.path.join(self.tmp, key + '.o')
                self._compile(u.cmd(tmp), tmp)
                os.replace(tmp, out)
                return out
            f = self._pool.submit(go)
            self._units[key] = f
            return f

    def program(self, name, units, cc=None, flags=None, libs='', strict=False):
        """Links units; the link command comes from the first unit. When one does not build, the jobs
        of this program are left out and the verdict is an error, unless other programs show a violation."""
        futs = [self.unit(u) for u in units]
        try:
            objs = [f.result() for f in futs]
        except BuildFailure as e:
            if strict:
                raise
            self.unbuilt.append(e)
            return UNBUILT
        u = units[0]
        key = hashlib.sha256('\0'.join(objs + [name, libs]).encode()).hexdigest()[:16]
        out = os.path.join(self.tmp, '%s-%s' % (name, key))
        if not os.path.exists(out):
            cmd = [cc or u.cc, *(flags or u.flags).split(), *objs, '-o', out + '.tmp', *libs.split()]
            self._compile(cmd, out)
            os.replace(out + '.tmp', out)
        return out

    def prebuild(self, units):
        for u in units:
            self.unit(u)

    # ---- running
    def run_jobs(self, jobs):
        """jobs: list of Job. Runs them in parallel and records what they report."""
        futs = {self._runpool.submit(self._run, j): j for j in jobs}
        for f in as_completed(futs):
            r = f.result()
            if r is not None:
                self.results.append(r)
        return self.results

    def _run(self, job):
        if self.stop.is_set() or UNBUILT in job.cmd:
            return None
        for attempt in (1,) if self.quick else (1, 2):
            r = self._run_once(job)
            if r is None or r['timeout'] != 'wall':
                break
        if r is None:
            return None
        if r['timeout']:
            self.violations.append((job.name + ':hang', 'no end within %s: %s' % ('%d s of processor time' % r['cpu_limit'] if r['timeout'] == 'cpu' else '%d s' % job.timeout, ' '.join(job.cmd)), job))
            self.stop.set()
            for k, d in r['viols']:
                if job.only is None or re.search(job.only, k):
                    self.violations.append((job.name + ':' + k, d, job))
            return r
        for k, d in r['viols']:
            if job.only is not None and not re.search(job.only, k):
                continue
            self.violations.append((job.name + ':' + k, d, job))
        if r['rc'] != 0 or not r['end']:
            if r['rc'] == 3:
                raise HarnessError('%s: %s' % (' '.join(job.cmd), r['tail']))
            what, sig = classify(r)
            if what is None:
                raise HarnessError('%s ended with %s: %s' % (' '.join(job.cmd), r['rc'], r['tail']))
            self.violations.append((job.name + ':' + what, sig, job))
        return r

    def _run_once(self, job):
        env = dict(os.environ, **SAN_ENV, **job.env)
        outp = tempfile.TemporaryFile(dir=self.tmp)
        errp = tempfile.TemporaryFile(dir=self.tmp)
        t = time.time()
        # processor time does not depend on what else the machine does: far more of it than ever needed is a hang
        cpu = job.cpu or (100 if self.quick else 4000)
        p = subprocess.Popen(['/bin/sh', '-c', 'ulimit -S -t %d; exec "$@"' % cpu, 'sh'] + job.cmd, stdout=outp, stderr=errp, env=env, cwd=self.tmp, start_new_session=True, stdin=subprocess.DEVNULL)
        to, gone = None, False
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if time.time() - t < job.timeout and not self.stop.is_set():
                    continue
                gone = self.stop.is_set()
                to = 'wall'
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        if gone:
            return None
        if p.returncode == -signal.SIGXCPU and to is None:
            to = 'cpu'
        outp.seek(0)
        errp.seek(0)
        out = outp.read().decode('utf-8', 'replace')
        err = errp.read()[-20000:].decode('utf-8', 'replace')
        r = dict(name=job.name, group=job.group, rc=p.returncode, timeout=to, cpu_limit=cpu, wall=time.time() - t, evals=0, distinct=0, viols=[], samples=[], counters={}, end=False, tail=(out[-1500:] + '\n' + err[-3000:]), err=err, out=out)
        for line in out.split('\n'):
            f = line.split('\t')
            if f[0] == 'V' and len(f) >= 3:
                r['viols'].append((f[1], '\t'.join(f[2:])))
            elif f[0] == 'S' and len(f) >= 2:
                r['samples'].append('\t'.join(f[1:]))
            elif f[0] == 'C' and len(f) == 3:
                r['counters'][f[1]] = int(f[2])
            elif f[0] == 'E' and len(f) == 4:
                r['evals'], r['distinct'] = int(f[1]), int(f[2])
            elif line == 'END':
                r['end'] = True
        return r

    def violation(self, key, detail, job=None):
        self.violations.append((key, detail, job))

    # ---- verdict
    def finish(self, rule, level='exploration', assumptions=None, min_evals=1):
        known = load_known(self.prop)
        seen, fresh, hit = set(), [], {}
        for key, detail, job in self.violations:
            m = [k for k in known if k['key'] == key]
            if m:
                hit[m[0]['key']] = m[0]
                continue
            if key in seen:
                continue
            seen.add(key)
            fresh.append((key, detail, job))
        evals = sum(r['evals'] for r in self.results) + self.extra_evals
        groups = {}
        for r in self.results:
            groups[r['group']] = max(groups.get(r['group'], 0), r['distinct'])
        distinct = sum(groups.values()) + self.extra_distinct
        samples, per = [], {}
        for r in sorted(self.results, key=lambda r: r['name']):
            n = per.get(r['group'], 0)
            for s in r['samples'][:2]:
                if n < 3:
                    samples.append('%s: %s' % (r['name'], s))
                    n += 1
            per[r['group']] = n
        samples = (self.extra_samples + samples)[:40]
        counters = {}
        for r in self.results:
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
        cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples or ['none'], counters=counters,
                   processes=[dict(name=r['name'], evaluations=r['evals'], wall_s=round(r['wall'], 2)) for r in sorted(self.results, key=lambda r: r['name'])][:200])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=assumptions or [], wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if fresh:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (key, detail, job) in enumerate(fresh[:10]):
                rp = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, witness=detail, seed=self.seed, tier=self.tier,
                                   command=job.cmd if job else None, rerun='VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s' % (self.seed, self.tier, self.prop)), f, indent=1)
                print('violated: %s: %s' % (key, detail[:600]))
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.unbuilt:
            print('build failure: %s\n%s' % (self.unbuilt[0].what, self.unbuilt[0].log))
            return 2
        if evals < min_evals:
            print('inconclusive: only %d evaluations' % evals)
            return 2
        print('%s held: %d evaluations, %d distinct non-trivial cases, %d processes, %.1f s' % (self.prop, evals, distinct, len(self.results), time.time() - self.t0))
        return 0

    def close(self):
        self.stop.set()
        self._pool.shutdown(wait=True, cancel_futures=True)
        self._runpool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        # keep the object cache small
        objs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('o-')), key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
        for f in objs[:-1500]:
            try:
                os.unlink(f)
            except OSError:
                pass


class Job:
    def __init__(self, name, cmd, timeout=200, group=None, env=None, only=None, cpu=None):
        self.cpu = cpu
        self.only = only  # pattern of the reported keys which matter to this property (ends of the process always do)
        self.name, self.cmd, self.timeout = name, [str(c) for c in cmd], timeout
        self.group = group or name
        self.env = env or {}


def classify(r):
    """(what, detail) of an abnormal end: a property violation, or (None, _) for a broken harness."""
    t = r['err'] + '\n' + r['out'][-3000:]
    m = re.search(r'AddressSanitizer: ([\w-]+)', t)
    if m and 'out of memory' not in t:
        return 'asan:' + m.group(1), excerpt(t, 'AddressSanitizer')
    m = re.search(r'runtime error: ([^\n]{0,160})', t)
    if m:
        return 'ubsan', excerpt(t, 'runtime error')
    if 'WARNING: ThreadSanitizer: data race' in t:
        return 'tsan:race', excerpt(t, 'ThreadSanitizer')
    m = re.search(r'ThreadSanitizer: ([\w -]+)', t)
    if m:
        return 'tsan', excerpt(t, 'ThreadSanitizer')
    if 'MemorySanitizer: use-of-uninitialized-value' in t:
        return 'msan', excerpt(t, 'MemorySanitizer')
    if 'failed assertion' in t:
        return 'assertion', excerpt(t, 'failed assertion')
    if 'Assertion' in t and 'failed' in t:
        return 'assertion', excerpt(t, 'Assertion')
    if r['rc'] == 95:
        return 'valgrind', excerpt(t, '==')
    if r['rc'] is not None and r['rc'] < 0:
        if -r['rc'] == signal.SIGKILL:
            return None, ''
        return 'signal %d' % -r['rc'], t[-800:]
    return None, ''


def excerpt(t, marker):
    i = t.find(marker)
    return re.sub(r'\s*\n\s*', ' | ', t[max(0, i - 100):i + 1200])


def load_known(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), what=m.group(3)))
    except OSError:
        pass
    return res
