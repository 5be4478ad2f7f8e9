#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM IR, runs the symbolic engine on the property's
harnesses, replays counterexamples and sample paths against the real (native, sanitized) code, writes evidence.

  run.py check ID            quick or thorough, by VERIF_TIER
  run.py setup               build the engine and warm the compile cache
  run.py replay FILE         run a recorded counterexample natively
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SX = os.path.join(BUILD, 'engine', 'sx')
CXX = '/usr/bin/clang++-18'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NCPU = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, 'lib'))

COMMON = ['-std=c++17', '-g1', '-I' + VERIF + '/model', '-fno-exceptions', '-D_GLIBCXX_TSAN=1', '-Wno-everything']
IRF = ['-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
       '-fsanitize=signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,bounds,return,unreachable,bool,enum',
       '-fsanitize-trap=all', '-mllvm', '-bonus-inst-threshold=200', '-mllvm', '-phi-node-folding-threshold=60',
       '-mllvm', '-two-entry-phi-node-folding-threshold=60', '-mllvm', '-speculate-one-expensive-inst=1',
       '-emit-llvm', '-c']
SANF = ['-DVF_NATIVE', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-c']
TSANF = ['-DVF_NATIVE', '-DVF_TSAN', '-O1', '-fsanitize=thread', '-c']


class BuildError(Exception):
    pass


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_fh = {}


def fhash(p):
    h = _fh.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _fh[p] = h
    return h


def real(p):
    """paths below @R are the repository's, below @V the framework's"""
    if p.startswith('@R/'):
        return os.path.join(REPO, p[3:])
    if p.startswith('@V/'):
        return os.path.join(VERIF, p[3:])
    return p


def virt(p):
    p = os.path.normpath(os.path.join(REPO, p))
    for a, b in ((REPO, '@R'), (VERIF, '@V')):
        if p.startswith(a + '/'):
            return b + p[len(a):]
    return p


_locks = {}
_ll = threading.Lock()


def compile_one(src, flags, kind):
    """src: virtual path; returns the object or bitcode file, from the cache when its inputs are unchanged."""
    base = COMMON + {'ir': IRF, 'san': SANF, 'tsan': TSANF}[kind] + flags
    key0 = hashlib.sha256(json.dumps([4, src, [f.replace(VERIF, '@V') for f in base]]).encode()).hexdigest()[:24]
    with _ll:
        lk = _locks.setdefault(key0, threading.Lock())
    with lk:
        depf = os.path.join(CACHE, key0 + '.deps')
        ext = '.bc' if kind == 'ir' else '.o'

        def full(deps):
            return hashlib.sha256(json.dumps([key0] + [[d, fhash(real(d))] for d in deps]).encode()).hexdigest()[:32]
        try:
            deps = json.load(open(depf))
            out = os.path.join(CACHE, full(deps) + ext)
            if os.path.exists(out):
                return out
        except (OSError, ValueError):
            pass
        tmp = os.path.join(CACHE, '%s.%d.%d' % (key0, os.getpid(), threading.get_ident()))
        dep = ['-I' + REPO, '-MMD', '-MF', tmp + '.d']
        if kind == 'ir' or src.startswith('@V/native'):
            r = sh([CXX] + base + dep + ['-o', tmp + ext, real(src)], cwd=REPO)
        else:
            # the native runtime is told of every atomic operation: other threads may run before it
            r = sh([CXX] + base + dep + ['-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', '-o', tmp + '.ll', real(src)], cwd=REPO)
            if r.returncode == 0:
                announce_atomics(tmp + '.ll', kind == 'tsan')
                r = sh([CXX] + [f for f in base if not f.startswith(('-D', '-I', '-std', '-include'))] + ['-Wno-override-module', '-o', tmp + ext, tmp + '.ll'], cwd=REPO)
                os.unlink(tmp + '.ll')
        if r.returncode != 0:
            ls = r.stdout.splitlines()
            txt = '\n'.join(l for i, l in enumerate(ls) if any(' error:' in x for x in ls[max(0, i - 2):i + 1]))
            raise BuildError('%s: %s' % (src, (txt or r.stdout)[:1500]))
        txt = open(tmp + '.d').read().replace('\\\n', ' ')
        deps = sorted({virt(d) for d in txt.split(':', 1)[1].split()})
        deps = [d for d in deps if d.startswith('@')]
        out = os.path.join(CACHE, full(deps) + ext)
        os.replace(tmp + ext, out)
        os.unlink(tmp + '.d')
        with open(tmp + '.j', 'w') as f:
            json.dump(deps, f)
        os.replace(tmp + '.j', depf)
        return out


ATOMIC = re.compile(r'^\s+(%\S+ = )?(load atomic|atomicrmw|cmpxchg|store atomic)\b')


ADDRESS = re.compile(r'^\s+(%\S+) = (alloca|getelementptr)\b(?!.*<\d+ x ptr>)')


def announce_atomics(path, escape):
    out, seen = [], False
    for l in open(path):
        if ATOMIC.match(l):
            out.append('  call void @vf_atomic_point()\n')
            seen = True
        out.append(l)
        # the thread sanitizer leaves out accesses to locals that it takes for private to the thread, sometimes wrongly
        if escape and ADDRESS.match(l):
            out.append('  call void @vf_escape(ptr %s)\n' % ADDRESS.match(l).group(1))
            seen = True
    if seen:
        out.append('\ndeclare void @vf_atomic_point() nounwind\ndeclare void @vf_escape(ptr) nounwind\n')
        with open(path, 'w') as f:
            f.writelines(out)


class Case:
    def __init__(self, name, harness, src=(), params=None, entry=None, reach=(), defs=(), models=(), tiers=('quick', 'thorough'),
                 time=60, jobs=1, bounds='', steps=None, native=True, solver_ms=None, flags=(), extra=(), complete=True, ttime=None, samples=12):
        self.name, self.harness, self.src, self.params = name, harness, list(src), dict(params or {})
        self.entry = entry or name
        self.reach, self.defs, self.models, self.tiers = list(reach), list(defs), list(models), tiers
        self.time, self.jobs, self.bounds, self.steps = time, jobs, bounds, steps
        self.native, self.solver_ms, self.flags, self.extra = native, solver_ms, list(flags), list(extra)
        self.complete = complete
        self.samples = samples
        self.ttime = ttime

    def units(self, kind):
        """(virtual path, flags)"""
        d = ['-D' + x for x in self.defs]
        u = [('@V/harness/%s.cc' % self.harness, d + self.flags)]
        u += [('@R/rst/' + s, d) for s in self.src]
        u += [('@V/model/%s.cc' % m, d) for m in self.models]
        u.append(('@V/model/sync.cc', []))
        if kind == 'ir':
            u.append(('@V/model/stl.cc', ['-fno-access-control']))
            u.append(('@V/model/libc.cc', ['-fno-builtin', '-D_GNU_SOURCE']))
        return u


def build_engine():
    r = sh(['make', '-s', '-j', str(NCPU), '-C', os.path.join(VERIF, 'engine')])
    if r.returncode != 0:
        raise CheckError('engine does not build: ' + r.stdout[-2000:])


def build_native(case, pool, kind='san'):
    """Links the harness and the real code with the native runtime; library calls with a model go to the model."""
    rt = compile_rt(kind)
    objs = [compile_one(s, f, kind) for s, f in case.units(kind)]
    key = hashlib.sha256(json.dumps([rt, objs]).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, key + '.bin')
    if os.path.exists(out):
        return out
    syms = set()
    nmodel = len(case.models) + 1
    for o in [rt] + objs[-nmodel:]:
        for l in sh(['nm', '--defined-only', o]).stdout.splitlines():
            p = l.split()
            if len(p) == 3 and p[2].startswith('vm_') and p[1] in 'TWVDBRtdb':
                syms.add(p[2][3:])
    if 'fs' not in case.models:
        syms -= {'fprintf', '__errno_location'}
    tmp = os.path.join(CACHE, '%s.%d.%d' % (key, os.getpid(), threading.get_ident()))
    with open(tmp + '.syms', 'w') as f:
        for s in sorted(syms):
            f.write('%s vm_%s\n' % (s, s))
    os.makedirs(tmp + '.d')
    ro = []
    for i, o in enumerate(objs):
        n = os.path.join(tmp + '.d', '%d.o' % i)
        r = sh(['objcopy', '--redefine-syms=' + tmp + '.syms', o, n])
        if r.returncode != 0:
            raise BuildError('objcopy: ' + r.stdout)
        ro.append(n)
    san = '-fsanitize=thread' if kind == 'tsan' else '-fsanitize=address,undefined'
    r = sh([CXX, san, '-o', tmp + '.bin', rt] + ro + ['-lpthread'])
    shutil.rmtree(tmp + '.d')
    os.unlink(tmp + '.syms')
    if r.returncode != 0:
        raise BuildError('native link: ' + r.stdout[-3000:])
    os.replace(tmp + '.bin', out)
    return out


def compile_rt(kind):
    # the runtime itself is not instrumented
    flags = ['-fno-sanitize=all', '-fexceptions', '-fno-access-control'] + (['-DVF_TSAN'] if kind == 'tsan' else [])
    return compile_one('@V/native/rt.cc', flags, kind)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=77:print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_thread_leaks=0:handle_abort=0')


def native_run(binary, case, lines, tmpname):
    """lines: list of input strings -> list of (status, label, out, report)"""
    if not lines:
        return []
    inp = os.path.join(BUILD, 'work', tmpname + '.in')
    with open(inp, 'w') as f:
        for l in lines:
            f.write((l.strip() or '-') + '\n')
    cmd = [binary, case.entry, inp] + ['%s=%s' % (k, v) for k, v in case.params.items()]
    if shutil.which('setarch'):
        cmd = ['setarch', '-R'] + cmd if 'tsan' in tmpname else cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, timeout=300)
    finally:
        os.unlink(inp)
    res = [('NONE', '', '', r.stderr[-500:])] * len(lines)
    for l in r.stdout.splitlines():
        if l.startswith('#'):
            i, rep = l[1:].split(' ', 1) if ' ' in l else (l[1:], '')
            s = res[int(i)]
            res[int(i)] = (s[0], s[1], s[2], rep.replace('\x1f', '\n'))
        else:
            i, rest = l.split(' ', 1)
            st, lab, out = rest.split('|', 2)
            res[int(i)] = (st, lab, out, '')
    return res


def merge(results):
    m = {}
    for r in results:
        for k, v in r.items():
            if k == 'exhausted':
                m[k] = m.get(k, True) and v
            elif k in ('max_rss_mb',):
                m[k] = max(m.get(k, 0), v)
            elif k == 'seconds':
                m[k] = max(m.get(k, 0), v)
            elif isinstance(v, (int, float)):
                m[k] = m.get(k, 0) + v
            elif isinstance(v, list):
                m.setdefault(k, [])
                m[k] = m[k] + v
            elif isinstance(v, dict):
                d = m.setdefault(k, {})
                for a, b in v.items():
                    d[a] = max(d.get(a, 0), b) if a == 'max_seconds' else d.get(a, 0) + b
    m['reached'] = sorted(set(m.get('reached', [])))
    return m


class Slots:
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def run_engine(case, slots, prop, limit_scale=1.0):
    jobs = min(case.jobs, NCPU)
    bcs = [compile_one(s, f, 'ir') for s, f in case.units('ir')]
    slots.take(jobs)
    try:
        base = os.path.join(BUILD, 'work', '%s.%s.%d' % (prop, case.name, os.getpid()))
        for f in os.listdir(os.path.dirname(base)):
            if f.startswith(os.path.basename(base) + '.json'):
                os.unlink(os.path.join(os.path.dirname(base), f))
        out = base + '.json'
        limit = (case.ttime if TIER == 'thorough' and case.ttime else case.time) * limit_scale
        if TIER == 'quick':   # the whole check has to give its answer in time: what it leaves unexplored is reported as incomplete
            limit = min(limit, max(8, START + 560 - time.time()))
        cmd = [SX] + bcs + ['--entry', case.entry, '--out', out, '--jobs', str(jobs), '--time', str(limit), '--samples', str(max(2, case.samples // jobs)), '--seed', str(SEED)]
        for k, v in case.params.items():
            cmd += ['--param', '%s=%s' % (k, v)]
        if case.steps:
            cmd += ['--steps', str(case.steps)]
        if case.solver_ms:
            cmd += ['--solver-timeout', str(case.solver_ms)]
        cmd += case.extra
        t0 = time.time()
        try:
            r = sh(['/usr/bin/prlimit', '--as=%d' % ((24 if jobs == 1 else 10) << 30)] + cmd, timeout=limit + 100)
        except subprocess.TimeoutExpired:
            raise CheckError('%s: engine did not stop in time' % case.name)
        files = [os.path.join(os.path.dirname(base), f) for f in sorted(os.listdir(os.path.dirname(base))) if f.startswith(os.path.basename(out))]
        rs = []
        for f in files:
            try:
                rs.append(json.load(open(f), strict=False))
            except ValueError:
                raise CheckError('%s: unreadable engine result %s' % (case.name, f))
            os.unlink(f)
        if r.returncode != 0 or not rs:
            raise CheckError('%s: engine failed (%d): %s' % (case.name, r.returncode, r.stdout[-2000:]))
        m = merge(rs)
        m['wall'] = time.time() - t0
        m['log'] = r.stdout[-2000:]
        return m
    finally:
        slots.give(jobs)


def wild_eq(a, b):
    return len(a) == len(b) and all(x == y or x == '?' for x, y in zip(a, b))


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


UNSEEN = {'race', 'uninitialised'}   # kinds the address sanitizer cannot see


def confirm(case, v, pool, tag):
    """Replays a counterexample against the real code. Returns (reproduced, text)."""
    line = ' '.join('%d:%s' % (i[0], i[1]) for i in v['inputs'])
    kind = v['kind']
    if kind == 'data-race':
        b = build_native(case, pool, 'tsan')
        r = native_run(b, case, [line], tag + '-tsan')[0]
        return ('ThreadSanitizer' in r[3] or r[0] in ('ASSERT', 'ABORT', 'CRASH', 'DEADLOCK', 'HANG')), 'tsan: %s %s\n%s' % (r[0], r[1], r[3])
    b = build_native(case, pool)
    r = native_run(b, case, [line], tag)[0]
    ok = r[0] in ('ASSERT', 'ABORT', 'CRASH', 'DEADLOCK', 'HANG')
    if ok:
        return True, '%s %s\n%s' % (r[0], r[1], r[3])
    if kind.startswith('uninit'):
        return True, 'use of uninitialised memory, which the native sanitizers do not report; native run: %s' % r[0]
    return False, '%s %s\n%s' % (r[0], r[1], r[3])


START = time.time()


def check(prop):
    t0 = time.time()
    import cases
    spec = cases.PROPS[prop]
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'work'), exist_ok=True)
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    build_engine()
    todo = [c for c in spec['cases'] if TIER in c.tiers]
    only = os.environ.get('VF_ONLY')
    if only:
        todo = [c for c in todo if c.name in only.split(',')]
    findings = [f for f in load_findings() if f['property'] == prop and f['status'] == 'known']
    known = {f['label']: f for f in findings}
    mine = lambda l, c: known[l].get('case', c.name) == c.name
    slots = Slots(NCPU)
    errors, results, notes = [], {}, []
    comp = ThreadPoolExecutor(NCPU)
    pool = ThreadPoolExecutor(64)
    # compile everything first, each unit once
    units = {}
    for c in todo:
        for k in ('ir', 'san'):
            if k == 'san' and not c.native:
                continue
            for s, f in c.units(k):
                units[(s, tuple(f), k)] = None
    futs = {u: comp.submit(compile_one, u[0], list(u[1]), u[2]) for u in units}
    rtf = comp.submit(compile_rt, 'san')
    for c in todo:
        c.extra = c.extra + [x for l in known if mine(l, c) for x in ('--known', l)]
    irok = [f for u, f in futs.items() if u[2] == 'ir']

    def one(c):
        for f in irok:
            f.exception()
        return run_engine(c, slots, prop)
    order = sorted(todo, key=lambda c: -c.time * c.jobs)
    rf = {c.name: pool.submit(one, c) for c in order}

    def nat(c):
        for f in list(futs.values()) + [rtf]:
            f.exception()
        return build_native(c, pool)
    nf = {}
    for c in todo:
        if c.native:
            nf[c.name] = comp.submit(nat, c)
    for c in todo:
        try:
            results[c.name] = rf[c.name].result()
        except (BuildError, CheckError) as e:
            errors.append(str(e))
    violations, unconfirmed, knownhit = [], [], set()
    for c in todo:
        m = results.get(c.name)
        if not m:
            continue
        for v in m['violations']:
            if v['label'] in known and mine(v['label'], c):
                knownhit.add(v['label'])
                continue
            tag = '%s-%s-%d' % (prop, c.name, len(violations) + len(unconfirmed))
            if len(violations) >= 4:
                break
            try:
                ok, text = confirm(c, v, pool, tag) if c.native else (True, 'not replayed natively')
            except (BuildError, subprocess.TimeoutExpired) as e:
                ok, text = False, 'replay failed: %s' % e
            rec = dict(property=prop, case=c.name, entry=c.entry, params=c.params, kind=v['kind'], label=v['label'], where=v['where'],
                       stack=v['stack'], schedule=v['trace'][-200:], inputs=v['inputs'], native=text,
                       rerun='python3 %s/lib/run.py replay %s' % (VERIF, tag))
            path = os.path.join(EVID, 'replays', tag + '.json')
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            (violations if ok else unconfirmed).append((path, rec))
    # anti-vacuity: every case must have reached its witnesses
    if not violations:
        for c in todo:
            m = results.get(c.name)
            if not m:
                continue
            if not m['exhausted'] and not m['incompletes'].keys() - {'time limit'} and any(r['exhausted'] for r in results.values()):
                continue   # ran out of time: listed as incomplete
            miss = [r for r in c.reach if r not in m['reached']]
            if miss:
                errors.append('%s: never reached %s (paths %d, incomplete %s)' % (c.name, miss, m['paths'], m['incompletes']))
            if not m['asserts'] and not m['trap_paths']:
                errors.append('%s: no assertion was evaluated' % c.name)
    # sample paths run natively
    validated, mismatches, samples = 0, 0, []
    if not violations:
        for c in todo:
            m = results.get(c.name)
            if not m or not c.native or c.name not in nf:
                continue
            try:
                b = nf[c.name].result()
            except BuildError as e:
                errors.append(str(e))
                continue
            ss = m['samples'][:c.samples]
            ins = [s.split('|OUT', 1)[0].replace('IN', '', 1).strip() for s in ss]
            outs = [s.split('|OUT', 1)[1].strip() for s in ss]
            try:
                rs = native_run(b, c, ins, '%s-%s-s%d' % (prop, c.name, os.getpid()))
            except subprocess.TimeoutExpired:
                errors.append('%s: native samples did not finish' % c.name)
                continue
            for s, o, r in zip(ins, outs, rs):
                if r[0] == 'OK' and wild_eq(o, r[2].replace('OUT', '', 1).strip()):
                    validated += 1
                else:
                    mismatches += 1
                    if mismatches <= 5:
                        errors.append('%s: real code and encoding disagree on a sample path: native %s %s [%s], engine [%s], inputs [%s] %s' % (c.name, r[0], r[1], r[2][:300], o[:300], s[:300], r[3][:600]))
            if ss:
                samples.append({'case': c.name, 'path': ss[0][:400]})
    comp.shutdown()
    pool.shutdown()
    for l in known:
        if l in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[l]['what']))
        else:
            notes.append('known finding not seen: ' + l)
    incomplete = []
    for c in todo:
        m = results.get(c.name)
        if m and (not m['exhausted'] or m['incomplete']) and not violations:
            why = dict(m['incompletes'])
            if not m['exhausted']:
                why['time or path limit'] = 1
            incomplete.append({'case': c.name, 'why': why})
    tot = merge([m for m in results.values()]) if results else {}
    fns = {k: v for k, v in tot.get('functions', {}).items()}
    repofns = repo_functions(fns)
    sol = tot.get('solver', {})
    ev = {
        'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': spec.get('level', 'model_checking'),
        'coverage': {
            'states': tot.get('paths', 0) + tot.get('trap_paths', 0) + tot.get('infeasible', 0) + tot.get('forks', 0),
            'transitions': tot.get('instrs', 0),
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'what_counts': 'states: symbolic states (complete paths plus fork points); transitions: IR instructions executed symbolically',
            'paths': tot.get('paths', 0), 'paths_ending_in_a_required_abort': tot.get('trap_paths', 0),
            'scheduling_points': tot.get('sched_points', 0),
            'assertions_decided': tot.get('asserts', 0),
            'solver': {'queries': sol.get('queries', 0), 'sat': sol.get('sat', 0), 'unsat': sol.get('unsat', 0), 'unknown': sol.get('unknown', 0), 'seconds': round(sol.get('seconds', 0), 3), 'longest_query_s': round(sol.get('max_seconds', 0), 3)},
            'exhaustive': not incomplete and not errors and not violations,
            'functions_encoded': len(fns),
            'repo_functions_encoded': repofns[:150],
            'cases': [{'case': c.name, 'bounds': c.bounds, 'params': {str(k): v for k, v in c.params.items()}, 'paths': results[c.name]['paths'], 'asserts': results[c.name]['asserts'],
                       'queries': results[c.name]['solver']['queries'], 'seconds': round(results[c.name]['wall'], 2), 'exhausted': results[c.name]['exhausted'] and not results[c.name]['incomplete']} for c in todo if c.name in results],
            'incomplete': incomplete[:20],
            'outside_the_bounds': spec.get('outside', ''),
        },
        'assumptions': spec.get('assumes', []) + notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if errors:
        ev['coverage']['errors'] = [e[:600] for e in errors[:10]]
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev['coverage']['repo_functions_encoded']:
        ev['coverage']['repo_functions_encoded'] = ev['coverage']['repo_functions_encoded'][:-20]
        ev['coverage']['samples'] = ev['coverage']['samples'][:4]
        if not ev['coverage']['repo_functions_encoded']:
            ev['coverage']['cases'] = ev['coverage']['cases'][:60]
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        f.write(txt + '\n')
    for c in todo:
        m = results.get(c.name)
        if m:
            print('%-28s paths %-7d asserts %-8d queries %-6d %6.2fs%s' % (c.name, m['paths'] + m['trap_paths'], m['asserts'], m['solver']['queries'], m['wall'], '' if m['exhausted'] and not m['incomplete'] else '  INCOMPLETE'))
    print('%s: %d sample paths agree with the native build, %.1fs' % (prop, validated, time.time() - t0))
    for i in incomplete:
        print('INCOMPLETE %s: %s' % (i['case'], i['why']))
    if violations:
        for path, r in violations:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s (%s) at %s' % (r['case'], r['label'], r['kind'], r['where']))
            print('  ' + r['native'][:800].replace('\n', '\n  '))
        return 1
    for path, r in unconfirmed:
        print('UNCONFIRMED %s: %s (%s) at %s, replay=%s: %s' % (r['case'], r['label'], r['kind'], r['where'], path, r['native'][:1500]))
    for e in dict.fromkeys(errors):
        print('ERROR ' + e)
    if errors or unconfirmed:
        return 2
    return 0


def repo_functions(fns):
    names = list(fns)
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    d = r.stdout.split('\n')
    keep = set()
    for n in d:
        if 'rst::' in n.split('(')[0]:
            n = n.split('[abi')[0] if len(n) > 200 else n
            keep.add(n[:110])
    return sorted(keep)


def setup():
    import cases
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'work'), exist_ok=True)
    build_engine()
    seen = {}
    for p in cases.PROPS.values():
        for c in p['cases']:
            for k in ('ir', 'san'):
                if k == 'san' and not c.native:
                    continue
                for s, f in c.units(k):
                    seen[(s, tuple(f), k)] = c
    bad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [(k, ex.submit(compile_one, k[0], list(k[1]), k[2])) for k in seen] + [('rt', ex.submit(compile_rt, 'san'))]
        for k, f in fs:
            if f.exception():
                bad += 1
                print('ERROR', k, str(f.exception())[:1500])
    nb = {}
    for p in cases.PROPS.values():
        for c in p['cases']:
            if c.native:
                nb[json.dumps(c.units('san'))] = c
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(build_native, c, None) for c in nb.values()]:
            if f.exception():
                bad += 1
                print('ERROR', str(f.exception())[:1500])
    print('setup: %d units compiled, %d native drivers, %d errors' % (len(seen), len(nb), bad))
    return 1 if bad else 0


def replay(path):
    import cases
    if not os.path.exists(path):
        path = os.path.join(EVID, 'replays', path + '.json')
    rec = json.load(open(path))
    c = [c for c in cases.PROPS[rec['property']]['cases'] if c.name == rec['case']][0]
    ok, text = confirm(c, rec, None, 'replay-%d' % os.getpid())
    print(rec['label'], '|', rec['kind'], '|', rec['where'])
    print('reproduced' if ok else 'NOT reproduced')
    print(text)
    return 1 if ok else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'check':
            rc = check(sys.argv[2])
        elif sys.argv[1] == 'setup':
            rc = setup()
        else:
            rc = replay(sys.argv[2])
    except (BuildError, CheckError) as e:
        print('ERROR', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
