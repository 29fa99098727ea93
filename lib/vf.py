"""Driver library: builds the harnesses from /repo's working tree, runs them in parallel chunks,
turns their reports into verdicts and writes the evidence files."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
REPLAYS = os.path.join(VERIF, '.replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
JOBS = min(8, os.cpu_count() or 1)

GCC, CLANG = 'g++', 'clang++'
COMMON = ['-std=c++17', '-g1', '-DNDEBUG', '-Wno-deprecated-declarations', '-w', '-I' + REPO, '-I' + HARNESS]
ASAN = ['-O1', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TSAN = ['-O1', '-fsanitize=thread']
PLAIN = ['-O2']

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=99:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:history_size=4',
    'LSAN_OPTIONS': 'exitcode=96',
}


class BuildError(Exception):
    pass


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
        return -9, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), True


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def repo_sources():
    r = []
    for d in ('netcode', 'tools'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in files if f.endswith(('.hh', '.h', '.cc', '.hpp', '.c', '.inc', '.ipp', '.cpp'))]
    return r


_inputs = None
def inputs_hash():
    global _inputs
    if _inputs is None:
        _inputs = tree_hash(repo_sources() + glob.glob(os.path.join(HARNESS, '*')))
    return _inputs


_lock = threading.Lock(); _locks = {}
def compile_obj(src, flags, cc=GCC):
    """Compile one file; cached by the contents of every possible input."""
    key = hashlib.sha256(json.dumps([inputs_hash(), src, flags, cc, REPO]).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, key + '.o')
    with _lock: l = _locks.setdefault(key, threading.Lock())
    with l:
        if not os.path.exists(obj):
            os.makedirs(BUILD, exist_ok=True)
            tmp = obj + '.%d.%d' % (os.getpid(), threading.get_ident())
            rc, out, err, to = sh([cc] + flags + ['-c', src, '-o', tmp], timeout=500)
            if rc: raise BuildError('%s: %s' % (src, err[-3000:]))
            os.rename(tmp, obj)
    return obj


def lib_sources(c_api=False):
    s = glob.glob(os.path.join(REPO, 'netcode', 'detail', '*.cc')) + glob.glob(os.path.join(REPO, 'netcode', '*.cc'))
    if c_api: s += glob.glob(os.path.join(REPO, 'netcode', 'c', '**', '*.cc'), recursive=True)
    return sorted(s)


def build(name, srcs, flags, c_api=False, lib=True, link=(), cc=GCC, gfwrap=True, refgf=True, extra_flags=()):
    """Build one harness binary and return its path."""
    common = COMMON + list(flags) + list(extra_flags)
    todo = [(os.path.join(HARNESS, s) if not s.startswith('/') else s, common, cc) for s in srcs]
    if lib: todo += [(s, common, cc) for s in lib_sources(c_api)]
    link = list(link)
    if gfwrap: todo.append((os.path.join(HARNESS, 'gfwrap.cc'), common, cc)); link.append('-Wl,--wrap=gf_init_easy')
    if refgf: todo.append((os.path.join(HARNESS, 'refgf.cc'), ['-O2', '-w'], GCC))
    with cf.ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(lambda t: compile_obj(*t), todo))
    key = hashlib.sha256(json.dumps([objs, link, list(flags), cc]).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, name + '-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        rc, out, err, to = sh([cc] + [f for f in list(flags) + list(extra_flags) if f.startswith('-fsanitize')] + objs + link + ['-lgf_complete', '-lpthread', '-o', tmp])
        if rc: raise BuildError('link %s: %s' % (name, err[-3000:]))
        os.rename(tmp, exe)
    return exe


def prune_build(max_bytes=600 << 20):
    try:
        fs = [(os.path.getatime(p), os.path.getsize(p), p) for p in glob.glob(os.path.join(BUILD, '*'))]
    except OSError:
        return
    total = sum(f[1] for f in fs)
    for _, sz, p in sorted(fs):
        if total <= max_bytes: break
        try: os.remove(p); total -= sz
        except OSError: pass


# ------------------------------------------------------------------------------ reports
REPORT = re.compile(r'(ERROR: VerifRegion.*|ERROR: \w+Sanitizer.*|WARNING: ThreadSanitizer.*|.*runtime error:.*|terminate called.*|what\(\):.*|.*Assertion .* failed.*|VIOL .*)')


def report_line(out, err):
    ls = [l.strip() for l in (out + '\n' + err).splitlines() if REPORT.search(l)]
    return ls[0][:600] if ls else ''


def write_replay(prop, cmd, text, env=None):
    os.makedirs(REPLAYS, exist_ok=True)
    body = '#!/bin/sh\n# %s\n' % prop + ''.join('# %s\n' % l for l in text.splitlines()[:80])
    for k, v in (env or {}).items(): body += 'export %s=%s\n' % (k, shlex.quote(v))
    body += 'exec ' + ' '.join(shlex.quote(c) for c in cmd) + '\n'
    path = os.path.join(REPLAYS, '%s-%s.sh' % (prop, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f: f.write(body)
    os.chmod(path, 0o755)
    return path


class Result:
    def __init__(self):
        self.evaluations = 0; self.nontrivial = 0; self.distinct = set(); self.counters = {}; self.samples = []; self.foreign = {}; self.notes = []

    def merge_result(self, o):
        self.evaluations += o.evaluations; self.nontrivial += o.nontrivial; self.distinct |= o.distinct; self.notes += o.notes
        for k, v in o.counters.items(): self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o.foreign.items(): self.foreign[k] = self.foreign.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:6]

    def merge(self, d, tag=''):
        self.evaluations += d['evaluations']; self.nontrivial += d['nontrivial']
        self.distinct |= {tag + x for x in d['distinct']}
        for k, v in d['counters'].items():
            if k.startswith('max_'): self.counters[k] = max(self.counters.get(k, 0), v)
            else: self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d['foreign'].items(): self.foreign[k] = self.foreign.get(k, 0) + v
        for s in d['samples']:
            if len(self.samples) < 6: self.samples.append(s)


def run_chunks(prop, exe, ncases, ctx, tag='', chunk=None, timeout=240, extra='', env=None, args=(), first=0, workers=JOBS, wrapper=()):
    """Run cases [first, first+ncases) of a harness, in interleaved chunks over all cores."""
    env_all = dict(SAN_ENV); env_all.update(env or {})
    nchunks = min(ncases, (workers * 3) if chunk is None else max(1, ncases // chunk))
    stop = threading.Event(); res = ctx.result
    tmp = tempfile.mkdtemp(prefix='vf-')

    def one(i):
        if stop.is_set(): return None
        out, mark = os.path.join(tmp, 'o%d' % i), os.path.join(tmp, 'm%d' % i)
        base = list(wrapper) + [exe, '--prop', prop, '--seed', str(ctx.seed), '--tier', ctx.tier] + (['--extra', extra] if extra else []) + list(args)
        cmd = base + ['--from', str(first + i), '--to', str(first + ncases), '--stride', str(nchunks), '--out', out, '--mark', mark]
        for attempt in (0, 1):
            if stop.is_set(): return None
            rc, o, e, to = sh(cmd, timeout=timeout, env=env_all)
            if rc == 0 and not to:
                with open(out) as f: return ('ok', json.load(f))
            case = None
            try: case = int(open(mark).read())
            except Exception: pass
            single = base + ['--case', str(case)] if case is not None else cmd
            if rc == 10:
                m = re.search(r'VIOL (\S+) case=(\d+) (.*)', o)
                msg = m.group(3) if m else o[-500:]
                return ('viol', msg, single)
            if rc == 3 or (rc == 2 and not to): return ('err', 'harness error: ' + (e or o)[-800:])
            if to:
                # a hang only counts if the same case hangs again on its own
                if case is not None:
                    rc2, o2, e2, to2 = sh(single, timeout=max(120, timeout // 2), env=env_all)
                    if to2: return ('viol', 'case %d does not terminate' % case, single)
                    if rc2 == 10: continue
                log('note: chunk %d timed out, running it again' % i)
                continue
            line = report_line(o, e)
            if line or rc in (96, 97, 98, 99, 86) or attempt == 1:
                # stack for the replay file
                return ('viol', 'process failed (exit %s): %s' % (rc, line or (e or o)[-300:]), single, e[-4000:])
            # unexplained end (for instance killed for lack of memory): once more
        return ('inconclusive', 'chunk %d did not finish' % i)

    try:
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(one, i) for i in range(nchunks)]
            bad = None
            for f in cf.as_completed(futs):
                r = f.result()
                if r is None: continue
                if r[0] == 'ok': res.merge(r[1], tag)
                elif bad is None or (bad[0] != 'viol' and r[0] == 'viol'):
                    bad = r
                    if r[0] == 'viol': stop.set()
            if bad:
                if bad[0] == 'viol':
                    raise Violation(bad[1], write_replay(prop, bad[2], bad[1] + '\n' + (bad[3] if len(bad) > 3 else ''), env_all))
                raise Inconclusive(bad[1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.result = prop, tier, seed, Result()
        self.quick = tier == 'quick'

    def n(self, q, t):
        return q if self.quick else t

    def need(self, **kw):
        for k, v in kw.items():
            got = self.result.counters.get(k, 0)
            if got < v: raise Inconclusive('too few observations: %s = %d, at least %d expected' % (k, got, v))


def known_findings(prop):
    """Open findings of a property: lines 'open: property=<id> key=<regex> <text>'."""
    r = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append((re.compile(m.group(2)), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return r
