"""Runs the jobs of one check.

A job is one of
  M  a model: TLC explores a specification (spec/mc) and must find no error
     (or, for a mutant of the specification, must find one);
  U  programs of several source files, see run_units;
  T  a trace: a recorder (harness/*.cpp, built from /repo's working tree) runs
     the real code and logs what it does; TLC decides whether the log is a
     behaviour of the specification (spec/trace);
  R  a replay: TLC prints every transition of a model as a test, a replayer
     steps the real code through it and compares.
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('U5E_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SPEC = os.path.join(VERIF, 'spec')
JARS = ':'.join(['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'])


class ToolError(Exception):
    """the machinery failed; says nothing about the code"""


class BuildError(Exception):
    """a harness does not compile against the current tree"""


# ---------------------------------------------------------------- building
_locks, _locks_guard = {}, threading.Lock()


def _lock(key):
    with _locks_guard:
        return _locks.setdefault(key, threading.Lock())


def _digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:24]


def _tree(*dirs):
    r = []
    for d in dirs:
        for root, _, names in os.walk(d):
            r += [os.path.join(root, n) for n in names if n.endswith(('.hpp', '.h', '.cpp'))]
    return r


class Stopped(Exception):
    """violations were found already, the rest is not needed"""


stop = threading.Event()


def _run(cmd, timeout=600, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=1)
            return subprocess.CompletedProcess(cmd, p.returncode, out)
        except subprocess.TimeoutExpired:
            if time.time() < end and not stop.is_set():
                continue
            p.kill()
            p.communicate()
            if stop.is_set():
                raise Stopped()
            raise
        except BaseException:
            p.kill()
            p.communicate()
            raise


BASE = ['g++', '-std=c++1y', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
FLAVOURS = {
    'plain': ['-O1'],
    'O2': ['-O2'],
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVERIF_ASAN'],
    'memcheck': ['-O0', '-g', '-DVERIF_MEMCHECK', '-DVERIF_ASAN'],
    'tsan': ['-O1', '-g', '-fsanitize=thread', '-DVERIF_TSAN'],
    # native strings whose units do not lie next to each other
    'apart': ['-O1', '-DVERIF_NATIVE=1'],
    'units': ['-O1', '-DVERIF_NATIVE=2'],     # and whose units are unsigned
    # counting the steps taken
    'steps': ['-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc', '-DVERIF_STEPS'],
    # other ways to compile (a compiler other than g++ comes first)
    'gcc20u': ['-std=c++20', '-O3', '-funsigned-char'],
    'clang17': ['clang++', '-std=c++17', '-O2'],
    'clang23u': ['clang++', '-std=c++2b', '-Os', '-funsigned-char'],
    'gcc17': ['-std=c++17', '-O0'],
}


def flags_of(flavour):
    f = FLAVOURS[flavour]
    return [f[0]] + BASE[1:] + f[1:] if f[0].endswith('++') else BASE + f


def _sources(db=None):
    # the library's own .cpp files, as its build finds them
    return [f for f in _tree((db or REPO) + '/src') if f.endswith('.cpp')]


class GeneratorError(Exception):
    """a generator of the tables does not handle a Unicode database"""


def database(db):
    """A directory with the library's sources and the tables that its own generators
    make from a Unicode database: the files in the repository ('real') or made-up
    ones ('made-<seed>')."""
    gens = [os.path.join(r, n) for r, _, ns in os.walk(REPO + '/src') for n in ns if n.endswith(('.pl', '.sh', '.txt'))]
    deps = _tree(REPO + '/src') + gens + [VERIF + '/tools/' + n for n in ('synth_ucd.py', 'gen_ucd.py', 'gen_sets.py')] + [VERIF + '/harness/common.hpp']
    out = os.path.join(CACHE, 'db-%s-%s' % (db, _digest(deps, db)))
    with _lock(out):
        if os.path.exists(out + '/done'):
            return out
        tmp = '%s.%d.tmp' % (out, os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(REPO + '/src', tmp + '/src')
        props = [r for r, _, ns in os.walk(tmp + '/src') if any(n.endswith('_data.hpp') for n in ns)]
        for d in props:
            tables = sorted(n for n in os.listdir(d) if n.endswith('_data.hpp'))
            for n in tables:
                os.unlink(d + '/' + n)
            if db != 'real':
                p = _run([sys.executable, VERIF + '/tools/synth_ucd.py', db.split('-')[1], d])
                if p.returncode:
                    raise ToolError('synth_ucd.py: ' + p.stdout[-500:])
            for n in sorted(os.listdir(d)):
                if n.endswith(('.pl', '.sh')):
                    try:
                        p = _run(['perl' if n.endswith('.pl') else 'sh', n], timeout=60, cwd=d,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
                    except subprocess.TimeoutExpired:
                        raise GeneratorError('%s does not come to an end with the database %s' % (n, db))
                    if p.returncode:
                        raise GeneratorError('%s fails with the database %s: %s' % (n, db, p.stdout[:1500]))
            for n in tables:
                if not os.path.exists(d + '/' + n):
                    raise GeneratorError('nothing makes %s from the database %s' % (n, db))
            for cmd in (['gen_ucd.py', d, tmp + '/ucd.json'], ['gen_sets.py', tmp + '/ucd.json', tmp + '/ucd_sets.hpp']):
                p = _run([sys.executable, VERIF + '/tools/' + cmd[0]] + cmd[1:])
                if p.returncode:
                    raise ToolError('%s: %s' % (cmd[0], p.stdout[-500:]))
        open(tmp + '/done', 'w').close()
        os.rename(tmp, out)
    return out


def _object(src, flags, deps):
    key = _digest(deps + [src], ' '.join(flags))
    out = os.path.join(CACHE, 'o-' + key + '.o')
    with _lock(out):
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            p = _run(flags + ['-c', src, '-o', tmp])
            if p.returncode:
                raise BuildError('%s: %s' % (os.path.basename(src), p.stdout[:1500]))
            os.rename(tmp, out)
    return out


def build(name, flavour='plain', defs=(), db=None):
    """the executable of harness/<name>.cpp with the library of the working tree"""
    os.makedirs(CACHE, exist_ok=True)
    flags = flags_of(flavour) + list(defs)
    if db:
        d = database(db)
        flags = flags + ['-include', d + '/ucd_sets.hpp']
        hdeps = _tree(REPO + '/include', VERIF + '/harness', d)
        return _link(name + '-' + db, flavour, flags, hdeps, hdeps, VERIF + '/harness/' + name + '.cpp', d)
    deps = _tree(REPO + '/include', REPO + '/src')
    hdeps = deps + [f for f in _tree(VERIF + '/harness') if f.endswith('.hpp')]
    src = VERIF + '/harness/' + name + '.cpp'
    try:
        return _link(name, flavour, flags, deps, hdeps, src)
    except BuildError as e:
        # the probing iterators need not suit every native algorithm
        if 'VERIF_NO_PROBE' in open(src).read():
            return _link(name, flavour, flags + ['-DVERIF_NO_PROBE'], deps, hdeps, src)
        raise


def _link(name, flavour, flags, deps, hdeps, src, db=None):
    key = _digest(hdeps + [src] + deps, ' '.join(flags) + name)
    exe = os.path.join(CACHE, '%s-%s-%s' % (name, flavour, key))
    with _lock(exe):
        if not os.path.exists(exe):
            with cf.ThreadPoolExecutor(6) as ex:
                objs = list(ex.map(lambda s: _object(s, flags if s == src else flags_of(flavour), hdeps if s == src else deps), [src] + _sources(db)))
            tmp = exe + '.%d.tmp' % os.getpid()
            p = _run(flags + objs + ['-o', tmp, '-lpthread'])
            if p.returncode:
                raise BuildError('%s: %s' % (name, p.stdout[:1500]))
            os.rename(tmp, exe)
    return exe


def programs():
    """a directory with the example programs of the working tree"""
    deps = _tree(REPO + '/include', REPO + '/src', REPO + '/examples')
    out = os.path.join(CACHE, 'programs-' + _digest(deps, ''))
    with _lock(out):
        if not os.path.exists(out + '/done'):
            tmp = '%s.%d.tmp' % (out, os.getpid())
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            flags = BASE + FLAVOURS['plain']
            libs = [_object(s, flags, _tree(REPO + '/include', REPO + '/src')) for s in _sources()]

            def one(src):
                p = _run(flags + [src] + libs + ['-o', tmp + '/' + os.path.basename(src)[:-4]])
                if p.returncode:
                    raise BuildError('%s: %s' % (src, p.stdout[:1500]))
            with cf.ThreadPoolExecutor(6) as ex:
                list(ex.map(one, [f for f in _tree(REPO + '/examples') if f.endswith('.cpp')]))
            open(tmp + '/done', 'w').close()
            os.rename(tmp, out)
    return out


def replay_defs(mode):
    return ('-DREPLAY_' + mode, '-DREPLAY=' + mode)


def clean_cache(max_bytes=1500 << 20):
    """drop the oldest build products"""
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs = sorted((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs)
    except OSError:
        return
    total = sum(s for _, s, _ in fs)
    for _, s, f in fs:
        if total <= max_bytes:
            break
        try:
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
        except OSError:
            pass
        total -= s


# ---------------------------------------------------------------- TLC
def tlc(directory, module, cfg, work, env=None, workers=1, timeout=800, heap='2500m', extra=()):
    meta = tempfile.mkdtemp(prefix='st', dir=work)
    e = dict(os.environ, UCD=SPEC + '/data/ucd.json', EMIT='0', FORM='all')
    e.update(env or {})
    cmd = ['java', '-Xss256m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + work, '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', *extra, '-config', cfg + '.cfg', module + '.tla']
    try:
        p = _run(cmd, timeout=timeout, cwd=directory, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC %s/%s: no answer within %d s' % (module, cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    return p.returncode, p.stdout, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ---------------------------------------------------------------- jobs
class M:
    def __init__(self, module, cfg=None, env=None, workers=4, violated=False, timeout=800, extra=(), heap='4g'):
        self.module, self.cfg, self.env, self.workers = module, cfg or module, env, workers
        self.violated, self.timeout, self.extra, self.heap = violated, timeout, extra, heap
        self.weight = 10


class T:
    """recorder arguments: a string; shards share the work by -shard k -of n"""

    def __init__(self, rec, args, module, shards=1, env=None, flavour='plain', optional=False, timeout=800, weight=5, db=None):
        self.db = db
        self.rec, self.args, self.module, self.shards = rec, args, module, shards
        self.env, self.flavour, self.optional, self.timeout, self.weight = env, flavour, optional, timeout, weight


class R:
    def __init__(self, module, cfg, mode, env=None, timeout=800):
        self.module, self.cfg, self.mode, self.env, self.timeout = module, cfg, mode, env, timeout
        self.weight = 10


class P:
    """programs that must compile against the public interface (each one a trace event for the specification)"""

    def __init__(self, name):
        self.name = name
        self.weight = 10


class C:
    """programs that must or must not compile: the specification decides which"""

    def __init__(self, table, module):
        self.table, self.module = table, module
        self.weight = 10


class U:
    """programs of several source files (harness/<table>.py): compiled, linked and run"""

    def __init__(self, table, module, extra=0, texts=6, cc=(('g++', 'c++1y'),), timeout=800):
        self.table, self.module, self.extra, self.texts, self.cc, self.timeout = table, module, extra, texts, cc, timeout
        self.weight = 20


class Result:
    def __init__(self, what):
        self.what = what
        self.states = self.distinct = 0
        self.events = self.traces = self.replayed = 0
        self.samples, self.known, self.bad = [], [], []
        self.skipped = None
        self.seconds = 0.0


def run_model(j, work):
    r = Result('model %s (%s)' % (j.module, j.cfg))
    rc, out, (gen, dist) = tlc(SPEC + '/mc', j.module, j.cfg, work, j.env, j.workers, j.timeout, j.heap, j.extra)
    r.states, r.distinct = gen, dist
    if j.violated:
        if not re.search(r'(is violated|were violated)', out):
            raise ToolError('the mutant %s of the specification is not rejected:\n%s' % (j.cfg, out[-1500:]))
        r.what += ', must be and was violated'
    elif rc != 0 or 'No error has been found' not in out:
        raise ToolError('model %s (%s) failed:\n%s' % (j.module, j.cfg, out[-3000:]))
    return r


def _spec_lines(path):
    with open(path, errors='replace') as f:
        return f.read().splitlines()


def validate(module, trace, work, env, timeout):
    """(bad lines, known lines, states) of one trace"""
    lines = _spec_lines(trace)
    if os.path.getsize(trace) > PREFIX:
        # far longer than usual: the beginning may settle it
        n, size = 0, 0
        while size < PREFIX // 4:
            size += len(lines[n]) + 1
            n += 1
        with open(trace + '.pre', 'w') as f:
            f.write('\n'.join(lines[:n] + ['{"op":"truncated"}']) + '\n')
        bad, known, st = _validate(module, trace + '.pre', lines[:n] + ['{"op":"truncated"}'], work, env, timeout)
        bad = [b for b in bad if b <= n]
        if bad:
            return bad, known, st
    return _validate(module, trace, lines, work, env, timeout, '2500m' if os.path.getsize(trace) < PREFIX else '8g')


PREFIX = 80 << 20


def _validate(module, trace, lines, work, env, timeout, heap='2500m'):
    e = dict(env or {}, TRACE=trace)
    forced = []
    for _ in range(12):
        rc, out, st = tlc(SPEC + '/trace', module, module, work, e, 1, timeout, heap)
        m = re.search(r'SUMMARY (\{.*\})', out)
        if m and 'No error has been found' in out:
            s = json.loads(m.group(1).replace('\\"', '"'))
            if s['lines'] != len(lines):
                raise ToolError('%s read %d of %d lines' % (module, s['lines'], len(lines)))
            return sorted(set(s['bad']) | set(forced)), s['known'], st
        # A line on which an operator of the specification is not even
        # defined is not a behaviour of the specification either.
        at = re.findall(r'^/\\ l = (\d+)$', out, re.M)
        if at and re.search(r'(Attempted to|In applying|evaluating|was not in the domain|out of bounds|was applied|nonexistent|No CASE|TLC was unable)', out) \
                and not re.search(r'(OutOfMemory|StackOverflow|Java heap|ran out of memory)', out):
            n = int(at[-1])
            if n in forced or n > len(lines):
                raise ToolError('%s fails at line %d:\n%s' % (module, n, out[-2500:]))
            forced.append(n)
            cut = trace + '.cut'
            cp = [('{"op":"undefined"}' if i + 1 in forced else x) for i, x in enumerate(lines)]
            with open(cut, 'w') as f:
                f.write('\n'.join(cp) + '\n')
            e['TRACE'] = cut
            continue
        raise ToolError('%s gives no verdict:\n%s' % (module, out[-3000:]))
    return forced, [], (0, 0)


def memcheck_events(log):
    r, cur = [], None
    text = open(log, errors='replace').read() if os.path.exists(log) else ''
    for l in text.splitlines():
        m = re.match(r'==\d+== ?(.*)', l)
        if not m:
            continue
        m = m.group(1)
        if re.match(r'(Conditional jump or move depends|Use of uninitialised|Syscall param .* uninitialised|Invalid (read|write)|.*overlap in|Invalid free|Mismatched free)', m):
            cur = [m.strip()]
            r.append(cur)
        elif cur is not None and re.match(r'\s+(at|by) 0x', m) and len(cur) < 7:
            cur.append(re.sub(r'^\s+(at|by) 0x[0-9A-F]+: ', '', m)[:160])
        elif not m.strip():
            cur = None
    return [json.dumps(dict(op='memcheck', what=x[0].split(' ')[0], at=x)) for x in r[:20]]


def run_trace(j, shard, work, seed, tier):
    name = '%s %s' % (j.rec, j.args) + (' with the tables of the database ' + j.db if j.db else '')
    r = Result('trace %s [%d/%d] by %s' % (name, shard + 1, j.shards, j.module))
    try:
        exe = build(j.rec, j.flavour, db=j.db)
    except GeneratorError as e:
        r.bad.append(dict(job=name, recorder='', spec='spec/Generate.tla', line=0, event=str(e)[:3000], context=[], output=''))
        return r
    except BuildError as e:
        if j.db:
            # with the tables in the repository it was built
            build(j.rec, j.flavour)
            r.bad.append(dict(job=name, recorder='', spec='spec/Generate.tla', line=0, event='the tables made from the database %s do not compile: %s' % (j.db, str(e)[:2000]), context=[], output=''))
            return r
        if j.optional:
            r.skipped = str(e)[:300]
            return r
        raise
    more = ['-dir', programs()] if j.rec == 'rec_programs' else []
    trace = tempfile.mktemp(prefix='t%d-' % shard, suffix='.ndjson', dir=work)
    cmd = [exe, *j.args.split(), *more, '-o', trace, '-seed', str(seed), '-shard', str(shard), '-of', str(j.shards)]
    vlog = trace + '.valgrind'
    if j.flavour == 'memcheck':
        if not shutil.which('valgrind'):
            r.skipped = 'valgrind is not there'
            return r
        cmd = ['valgrind', '-q', '--log-file=' + vlog, '--error-exitcode=0', '--num-callers=12'] + cmd
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0',
               TSAN_OPTIONS='halt_on_error=0:exitcode=0:handle_segv=0', UCD_DIR=SPEC + '/data')
    jenv = dict(j.env or {}, **({'UCD': database(j.db) + '/ucd.json'} if j.db and j.db != 'real' else {}))
    for attempt in (1, 2):
        try:
            p = _run(cmd, timeout=j.timeout, env=env)
        except subprocess.TimeoutExpired:
            raise ToolError('%s: no answer within %d s' % (name, j.timeout))
        lines = _spec_lines(trace) if os.path.exists(trace) else []
        if p.returncode == 0 and lines and re.match(r'\{"op":"(end|crash|truncated)"', lines[-1]):
            break
        if attempt == 2 and j.flavour == 'memcheck' and not lines:
            r.skipped = 'valgrind does not work here: ' + p.stdout[-300:]
            return r
        if attempt == 2:
            raise ToolError('recorder %s ended with %d: %s' % (name, p.returncode, p.stdout[-800:]))
    if j.flavour == 'memcheck' and lines:
        # each complaint of valgrind is an event, before the last line
        found = memcheck_events(vlog)
        lines = lines[:-1] + found + lines[-1:]
        with open(trace, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    bad, known, st = validate(j.module, trace, work, jenv, j.timeout)
    if bad:     # only what repeats is reported
        bad2, _, _ = validate(j.module, trace, work, jenv, j.timeout)
        if bad2 != bad:
            raise ToolError('%s: the verdict does not repeat' % name)
    if bad == [len(lines)] and '"op":"truncated"' in lines[-1]:
        raise ToolError('%s: the trace is too long' % name)
    r.states, r.distinct = st
    r.events, r.traces = len(lines), 1
    r.known = [(k[1], lines[k[0] - 1]) for k in known]
    for n in bad:
        lo = n
        while lo > 1 and n - lo < 400 and not re.search(r'"op":"(new|wnew|snew)"', lines[lo - 1]):
            lo -= 1
        ctx = lines[lo - 1:n] if re.search(r'"op":"(new|wnew|snew)"', lines[lo - 1]) else [lines[n - 1]]
        r.bad.append(dict(job=name, recorder=' '.join(cmd), spec='spec/trace/%s.tla' % j.module, line=n,
                          event=lines[n - 1][:6000], context=[c[:3000] for c in ctx[-60:]],
                          output=p.stdout[-6000:] if p.stdout else ''))
    step = max(1, len(lines) // 2)
    r.samples = [x[:300] for x in lines[step - 1:step]]
    for f in (trace, trace + '.cut', vlog):
        if os.path.exists(f):
            os.unlink(f)
    return r


def run_replay(j, work, tier):
    r = Result('replay of the transitions of %s (%s) in the code' % (j.module, j.cfg))
    exe = build('replay', 'plain', replay_defs(j.mode))
    env = dict(j.env or {}, EMIT='1')
    rc, out, (gen, dist) = tlc(SPEC + '/mc', j.module, j.cfg, work, env, 4, j.timeout, '4g')
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('model %s (%s) failed:\n%s' % (j.module, j.cfg, out[-3000:]))
    r.states, r.distinct = gen, dist
    tests = [l[2:-1].replace('\\"', '"') for l in out.splitlines() if l.startswith('"@{') and l.endswith('}"')]
    if not tests:
        raise ToolError('%s printed no transitions' % j.cfg)
    tests = sorted(set(tests))
    path = tempfile.mktemp(prefix='r-', suffix='.ndjson', dir=work)
    with open(path, 'w') as f:
        f.write('\n'.join(tests) + '\n')
    try:
        p = _run([exe, '-i', path], timeout=j.timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('replay %s: no answer within %d s' % (j.mode, j.timeout))
    m = re.search(r'^REPLAYED (\d+) MISMATCHES (\d+)$', p.stdout, re.M)
    mism = re.findall(r'^MISMATCH (.*)$', p.stdout, re.M)
    if mism:
        for x in mism[:20]:
            r.bad.append(dict(job='replay ' + j.mode, recorder='%s -i <transitions of spec/mc/%s>' % (exe, j.cfg),
                              spec='spec/mc/%s.tla' % j.module, line=0, event=x[:6000], context=[], output=''))
    elif p.returncode or not m or int(m.group(1)) != len(tests):
        raise ToolError('replay %s ended with %d: %s' % (j.mode, p.returncode, p.stdout[-800:]))
    r.replayed = len(tests)
    r.samples = [tests[len(tests) // 2][:300]]
    os.unlink(path)
    return r


def run_programs(j, work):
    """each harness/<name>/*.cpp must compile, as <name>/base.cpp does"""
    r = Result('programs %s' % j.name)
    d = VERIF + '/harness/' + j.name
    names = sorted(n for n in os.listdir(d) if n.endswith('.cpp'))

    def one(n):
        return _run(BASE + ['-O0', '-fsyntax-only', d + '/' + n])
    with cf.ThreadPoolExecutor(4) as ex:
        res = dict(zip(names, ex.map(one, names)))
    if res['base.cpp'].returncode:
        raise ToolError('the headers do not compile: ' + res['base.cpp'].stdout[:800])
    for n in names:
        r.events += 1
        if res[n].returncode:
            r.bad.append(dict(job='programs ' + j.name, recorder='g++ -fsyntax-only ' + d + '/' + n, spec='', line=0,
                              event='%s does not compile' % n, context=[], output=res[n].stdout[:3000]))
    r.traces = 0
    r.samples = names[:1]
    return r


def run_table(j, work):
    """compiles every program of harness/<table>.py; the answers are a trace"""
    r = Result('programs of %s by %s' % (j.table, j.module))
    sys.path.insert(0, VERIF + '/harness')
    mod = __import__(j.table)
    progs = mod.table()
    cmd = BASE + ['-O0', '-fsyntax-only', '-x', 'c++']

    def one(n):
        if stop.is_set():
            raise Stopped()
        path = os.path.join(work, '%s-%d.cpp' % (j.table, n))
        with open(path, 'w') as f:
            f.write(progs[n][1])
        p = _run(cmd + [path], timeout=120)
        os.unlink(path)
        return p.returncode, p.stdout
    base = os.path.join(work, j.table + '-base.cpp')
    with open(base, 'w') as f:
        f.write(mod.HEAD + 'int main() { return 0; }\n')
    p = _run(cmd + [base])
    if p.returncode:
        raise ToolError('the headers do not compile: ' + p.stdout[:800])
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, range(len(progs))))
    trace = os.path.join(work, j.table + '.ndjson')
    lines = [json.dumps(dict(e, accepted=rc == 0)) for (e, _), (rc, _) in zip(progs, res)] + ['{"op":"end"}']
    with open(trace, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    bad, _, r_st = validate(j.module, trace, work, None, 300)
    r.states, r.distinct = r_st
    r.events, r.traces = len(lines), 1
    for n in bad:
        r.bad.append(dict(job='programs ' + j.table, recorder=' '.join(cmd), spec='spec/trace/%s.tla' % j.module, line=n, event=lines[n - 1],
                          context=progs[n - 1][1].splitlines()[-1:] if n <= len(progs) else [], output=res[n - 1][1][:2000] if n <= len(res) else ''))
    r.samples = lines[:1]
    return r


def run_units(j, work, seed):
    r = Result('programs of %s by %s' % (j.table, j.module))
    sys.path.insert(0, VERIF + '/harness')
    mod = __import__(j.table)
    orders = mod.orders(REPO, seed, j.extra)
    events, notes = [], []

    def event(note='', **kw):
        events.append(json.dumps(kw))
        notes.append(note[:2500])
    libs = [_object(s, flags_of('plain'), _tree(REPO + '/include', REPO + '/src')) for s in _sources()]
    texts = mod.texts(seed, j.texts)
    given = '\n'.join('%d %s %d %s' % (len(t), ' '.join(map(str, t)), len(b), ' '.join(map(str, b)))
                      for t in texts for b in [b''.join(chr(c).encode() for c in t)]) + '\n'
    for cc, std in j.cc:
        d = os.path.join(work, 'units-%s-%s' % (cc, std))
        os.makedirs(d)
        flags = [cc, '-std=' + std, '-w', '-O0', '-I' + REPO + '/include']

        def one(k):
            if stop.is_set():
                raise Stopped()
            text, uses = mod.source(orders[k], k)
            with open('%s/%d.cpp' % (d, k), 'w') as f:
                f.write(text)
            return uses, _run(flags + ['-c', '%s/%d.cpp' % (d, k), '-o', '%s/%d.o' % (d, k)], timeout=120)
        with cf.ThreadPoolExecutor(7) as ex:
            res = list(ex.map(one, range(len(orders))))
        good = [k for k in range(len(orders)) if res[k][1].returncode == 0]
        if not good:
            raise ToolError('nothing compiles with %s -std=%s: %s' % (cc, std, res[0][1].stdout[:800]))
        for k, (uses, p) in enumerate(res):
            event(p.stdout, op='unit', cc=cc, std=std, headers=orders[k], accepted=p.returncode == 0)
        with open(d + '/main.cpp', 'w') as f:
            f.write(mod.driver([(k, res[k][0]) for k in good]))
        p = _run(flags + [d + '/main.cpp', '-o', d + '/main'] + ['%s/%d.o' % (d, k) for k in good] + libs, timeout=300)
        event(p.stdout, op='link', cc=cc, std=std, units=len(good), accepted=p.returncode == 0)
        if p.returncode == 0:
            with open(d + '/in', 'w') as f:
                f.write(given)
            with open(d + '/in') as f:
                p = _run([d + '/main'], timeout=120, stdin=f)
            for l in p.stdout.splitlines():
                x = list(map(int, l.split()))
                h = res[x[1]][0][x[2]]
                event(op='use', kind=mod.USES[h][0], header=h, unit=x[1], s=texts[x[0]], out=x[4:])
            if p.returncode:
                event(op='crash', status=p.returncode)
        shutil.rmtree(d)
    # which macros the headers define: what is defined between the marks of their files
    src = os.path.join(work, 'macros.cpp')
    with open(src, 'w') as f:
        f.write(''.join('#include <u5e/%s>\n' % h for h in mod.headers(REPO)))
    p = _run(['g++', '-std=c++1y', '-w', '-E', '-dD', '-I' + REPO + '/include', src])
    where, seen = '', set()
    for l in p.stdout.splitlines() if p.returncode == 0 else []:
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            where = m.group(1)
        m = re.match(r'#define (\w+)', l)
        if m and where.startswith(REPO + '/include/') and m.group(1) not in seen:
            seen.add(m.group(1))
            event(op='macro', name=m.group(1), own='U5E' in m.group(1).upper())
    events.append('{"op":"end"}')
    notes.append('')
    trace = os.path.join(work, j.table + '.ndjson')
    with open(trace, 'w') as f:
        f.write('\n'.join(events) + '\n')
    bad, _, st = validate(j.module, trace, work, None, j.timeout)
    r.states, r.distinct = st
    r.events, r.traces = len(events), 1
    for n in bad:
        r.bad.append(dict(job='programs ' + j.table, recorder='harness/%s.py, seed %d' % (j.table, seed), spec='spec/trace/%s.tla' % j.module, line=n,
                          event=events[n - 1][:3000], context=[], output=notes[n - 1]))
    r.samples = events[:1] + events[-2:-1]
    return r


# ---------------------------------------------------------------- known findings
def known_findings():
    r = []
    with open(VERIF + '/KNOWN_FINDINGS') as f:
        for l in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m:
                r.append(m.groups())
    return r


# ---------------------------------------------------------------- one check
def check(pid, jobs, tier, seed, note):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='u5e-' + pid + '-')
    units = []
    for j in jobs:
        if isinstance(j, T):
            units += [(j, k) for k in range(j.shards)]
        else:
            units.append((j, 0))
    units.sort(key=lambda u: -u[0].weight)

    def unit(u):
        j, k = u
        t = time.time()
        if stop.is_set():
            r = Result('%s not run: violations were found already' % type(j).__name__)
            r.skipped = 'violations were found already'
            return r
        r = run_model(j, work) if isinstance(j, M) else run_replay(j, work, tier) if isinstance(j, R) \
            else run_programs(j, work) if isinstance(j, P) else run_table(j, work) if isinstance(j, C) else run_units(j, work, seed) if isinstance(j, U) else run_trace(j, k, work, seed, tier)
        r.seconds = time.time() - t
        if r.bad and (time.time() - t0 > 90 or os.environ.get('U5E_STOP')):
            stop.set()
        return r
    results, errors = [], []
    try:
        # build first, so that compilers and TLC do not compete
        need = sorted({(j.rec, j.flavour, j.optional, ()) for j in jobs if isinstance(j, T)} |
                      {('replay', 'plain', False, replay_defs(j.mode)) for j in jobs if isinstance(j, R)})
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [(ex.submit(build, n, fl, defs), opt) for n, fl, opt, defs in need]:
                try:
                    f[0].result()
                except BuildError as e:
                    if not f[1]:
                        errors.append('does not build: %s' % e)
        if not errors:
            with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
                fs = [ex.submit(unit, u) for u in units]
                for f in fs:
                    try:
                        results.append(f.result())
                    except (ToolError, BuildError) as e:
                        errors.append(str(e))
                    except Stopped:
                        pass
        else:
            # programs that must compile are judged even when the recorders do not build
            for j in jobs:
                if isinstance(j, P):
                    results.append(unit((j, 0)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        clean_cache()
    bad = [b for r in results for b in r.bad]
    listed = {k[1]: k for k in known_findings() if k[0] == pid}
    seen = {}
    for r in results:
        for k, line in r.known:
            if k in listed:
                seen.setdefault(k, line)
            else:
                bad.append(dict(job=r.what, recorder='', spec='', line=0, event='deviation %s: %s' % (k, line[:3000]), context=[], output=''))
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, listed[k][2]))
    out = None
    if bad:
        d = os.path.join(VERIF, 'replay', pid)
        os.makedirs(d, exist_ok=True)
        for i, b in enumerate(bad[:20]):
            out = os.path.join(d, '%s-%d.json' % (tier, i + 1))
            with open(out, 'w') as f:
                json.dump(b, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, out))
            print('  %s' % b['event'][:400])
    for e in errors:
        print('ERROR %s: %s' % (pid, e), file=sys.stderr)
    if results:
        cov = dict(
            states=sum(r.distinct for r in results), transitions=sum(r.states for r in results),
            traces_validated_against_impl=sum(r.traces for r in results),
            trace_events=sum(r.events for r in results), transitions_replayed_in_code=sum(r.replayed for r in results),
            samples=[s for r in results for s in r.samples][:12],
            jobs=[dict(job=r.what, distinct_states=r.distinct, states_generated=r.states, events=r.events, replayed=r.replayed,
                       seconds=round(r.seconds, 1), **({'skipped': r.skipped} if r.skipped else {})) for r in results])
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                           assumptions=note, wall_s=round(time.time() - t0, 2), violations=len(bad)), f, indent=1)
    if bad:
        return 1
    if errors:
        return 2
    print('OK property=%s tier=%s seed=%d: %d model states, %d trace events, %d transitions replayed, %.1f s' % (
        pid, tier, seed, sum(r.distinct for r in results), sum(r.events for r in results),
        sum(r.replayed for r in results), time.time() - t0))
    return 0
