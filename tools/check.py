#!/usr/bin/env python3
"""Run the check of one property: build the monitors against /repo's working tree, run them in all
configured flavours, judge, write the evidence file.

usage: check.py ID [quick|thorough]
Exit status: 0 held on everything explored, 1 violated, 2 inconclusive (error of the check)."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, 'harness')
TARGET = os.path.join(ROOT, 'target')
WORK = os.path.join(ROOT, 'work')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import plan as PLAN  # noqa

HOST = 'x86_64-unknown-linux-gnu'
MIRI_TREE = '-Zmiri-disable-isolation -Zmiri-tree-borrows'
MIRI_STACK = '-Zmiri-disable-isolation'

# flavour -> (toolchain, cargo profile args, output dir, RUSTFLAGS, extra cargo args, extra cargo features)
FLAV = {
    'dbg':   ('stable', [], 'debug', '', [], []),
    'nochk': ('stable', ['--profile', 'nochk'], 'nochk', '', [], []),
    'o3':    ('stable', ['--release'], 'release', '', [], []),
    'asan':  ('nightly', ['--release'], HOST + '/release', '-Zsanitizer=address -Cforce-frame-pointers=yes', ['--target', HOST], ['plainalloc']),
    'asandbg': ('nightly', [], HOST + '/debug', '-Zsanitizer=address -Cforce-frame-pointers=yes', ['--target', HOST], ['plainalloc']),
    'tsan':  ('nightly', [], HOST + '/debug', '-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer', ['--target', HOST, '-Zbuild-std'], ['plainalloc']),
    'miri-tree': ('nightly', None, None, '', [], []),
    'miri-stack': ('nightly', None, None, '', [], []),
    # Threads switched more often, another schedule in every process.
    'miri-tree-race': ('nightly', None, None, '', [], []),
    # Elements may leak when one of them panics.
    'miri-tree-noleak': ('nightly', None, None, '', [], []),
    'miri-stack-noleak': ('nightly', None, None, '', [], []),
    # Without run-time assertions.
    'miri-tree-noleak-nochk': ('nightly', ['--profile', 'nochk'], None, '', [], []),
    # Other machines: 32-bit words (and u64 aligned to 4), big-endian bytes.
    'miri-tree-w32': ('nightly', ['--target', 'i686-unknown-linux-gnu'], None, '', [], []),
    'miri-tree-w32-noleak': ('nightly', ['--target', 'i686-unknown-linux-gnu'], None, '', [], []),
    'miri-tree-be': ('nightly', ['--target', 's390x-unknown-linux-gnu'], None, '', [], []),
    'miri-tree-be-noleak': ('nightly', ['--target', 's390x-unknown-linux-gnu'], None, '', [], []),
}


def foreign(flav):
    p = FLAV[flav][1] or []
    return p[1].split('-')[0] if p[:1] == ['--target'] else None


class Inconclusive(Exception):
    pass


def env_for(flav, args=()):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'MIRIFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['RUST_BACKTRACE'] = '0'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    d = 'miri' if flav.startswith('miri') else flav if flav in ('asan', 'asandbg', 'tsan') else 'native'
    if foreign(flav):
        d = 'miri-' + foreign(flav)
    # dbg/nochk/o3 are built at the same time: separate directories.
    e['CARGO_TARGET_DIR'] = os.path.join(TARGET, flav if d == 'native' else d)
    if FLAV[flav][3]:
        e['RUSTFLAGS'] = FLAV[flav][3]
    if flav.startswith('miri'):
        e['MIRIFLAGS'] = (MIRI_TREE if 'tree' in flav else MIRI_STACK) + (' -Zmiri-ignore-leaks' if 'noleak' in flav else '')
        if 'race' in flav:
            e['MIRIFLAGS'] += ' -Zmiri-preemption-rate=0.1 -Zmiri-seed=%d' % (int(hashlib.md5(' '.join(args).encode()).hexdigest()[:6], 16) % 100000)
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    return e


def features(extra, flav):
    f = list(extra) + FLAV[flav][5]
    return ['--features', ','.join(f)] if f else []


def cargo(flav):
    return ['cargo'] if FLAV[flav][0] == 'stable' else ['cargo', '+nightly']


def fixed_jobs():
    # Leave the number of parallel rustc processes to cargo.
    return []


def build(flav, bins, feats, crate=HARNESS, timeout=700):
    """Build natively; returns {bin: path}."""
    tc, prof, out, _, extra, _ = FLAV[flav]
    cmd = cargo(flav) + ['build', '--offline', '--quiet'] + prof + extra + features(feats, flav)
    for b in bins:
        cmd += ['--bin', b]
    e = env_for(flav)
    if crate != HARNESS:
        e['CARGO_TARGET_DIR'] += '-' + os.path.basename(crate)
    if feats:
        e['CARGO_TARGET_DIR'] += '-' + '-'.join(feats)
    p = run(cmd, cwd=crate, env=e, timeout=timeout)
    if p['rc'] != 0:
        raise Inconclusive('build failed (%s): %s' % (' '.join(cmd), p['err'][-12000:]))
    return {b: os.path.join(e['CARGO_TARGET_DIR'], out, b) for b in bins}


PROCS = set()


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_small():
    import resource
    limits()
    # A runaway allocation fails (and is judged) instead of taking the machine down.
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run(cmd, cwd=None, env=None, timeout=600, small=False):
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=limits_small if small else limits)
    PROCS.add(p)
    to = False
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    PROCS.discard(p)
    return dict(rc=p.returncode, out=o.decode('utf8', 'replace'), err=e.decode('utf8', 'replace'), timeout=to, t=time.time() - t0)


UB = re.compile(r'^error: (Undefined Behavior|memory leaked|.*data race|.*deadlock|abnormal termination).*', re.I | re.M)
MIRI_UNSUP = re.compile(r'^error: (unsupported operation|resource exhaustion|.*post-monomorphization).*', re.I | re.M)


def judge(p, flav, progress):
    """-> ('ok', result) | ('violation', message, case) | ('inconclusive', message)"""
    err = p['err']
    case = None
    if progress and os.path.exists(progress):
        case = open(progress, errors='replace').readline().strip() or None
    m = re.findall(r'^CASE (.*)$', err, re.M)
    if m:
        case = m[-1]
    if p['timeout']:
        return ('inconclusive', 'watchdog fired after %.0f s in case %s' % (p['t'], case), case)
    mf = re.search(r'^MONITOR-FAIL (.*)$', err, re.M)
    tr = re.search(r'^TRACE (.*)$', err, re.M)
    if p['rc'] == 3 and mf:
        msg = mf.group(1)
        c = msg.split(': ', 1)[0]
        return ('violation', msg + (' | history: ' + tr.group(1)[-1500:] if tr else ''), c if '#' in c else case)
    if flav.startswith('miri'):
        u = UB.search(err)
        if u:
            loc = re.search(r'-->\s*(\S+)', err[u.end():])
            at = [x for x in re.findall(r'at (/repo/\S+?:\d+)', err[u.end():])][:3]
            return ('violation', 'Miri: %s at %s via %s' % (u.group(0)[7:], loc.group(1) if loc else '?', ' '.join(at)), case)
        if MIRI_UNSUP.search(err):
            return ('inconclusive', 'Miri: ' + MIRI_UNSUP.search(err).group(0))
        if p['rc'] == 0:
            pass
        elif 'aborted execution' in err or 'abnormal termination' in err:
            return ('violation', 'aborted under Miri: ' + err[-600:], case)
        else:
            return ('inconclusive', 'Miri run ended with %s: %s' % (p['rc'], err[-1500:]))
    if p['rc'] == 77 and 'AddressSanitizer' in err:
        s = re.search(r'ERROR: AddressSanitizer: .*', err)
        fr = re.findall(r'#\d+ .* in (\S+.*?/repo/src/\S+)', err)[:2]
        return ('violation', (s.group(0) if s else 'AddressSanitizer report') + ' ' + ' <- '.join(fr), case)
    if p['rc'] == 66 and 'ThreadSanitizer' in err:
        s = re.search(r'WARNING: ThreadSanitizer: .*', err)
        return ('violation', s.group(0) if s else 'ThreadSanitizer report', case)
    if p['rc'] == 0:
        r = re.search(r'^RESULT (\{.*\})$', p['out'], re.M)
        if not r:
            return ('inconclusive', 'no result: ' + p['out'][-300:] + err[-300:])
        return ('ok', json.loads(r.group(1)))
    if p['rc'] is not None and p['rc'] < 0:
        sig = -p['rc']
        if sig == signal.SIGKILL:
            return ('inconclusive', 'killed (out of memory?)')
        if not case:
            return ('inconclusive', 'died by signal %d before any case ran: %s' % (sig, err[-500:]))
        return ('violation', 'process died by signal %d (%s) in case %s: %s' % (sig, signal.Signals(sig).name, case, err[-400:].strip()), case)
    return ('inconclusive', 'exit status %s: %s' % (p['rc'], err[-1000:]))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.plan = PLAN.PLAN[pid]
        self.t0 = time.time()
        self.results, self.violations, self.problems, self.runs = [], [], [], []
        self.known = load_known(pid)
        self.known_seen = set()
        self.lock = threading.Lock()
        self.dir = os.path.join(WORK, pid)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))

    def violation(self, msg, flav, bin_, args, case, feats):
        with self.lock:
            for k in self.known:
                if k['sig'] in '%s %s' % (case, msg):
                    self.known_seen.add(k['line'])
                    return
            n = len(self.violations)
            path = os.path.join(self.dir, 'replay-%d.sh' % n)
            self.violations.append((msg, path))
            if bin_ is None:
                # The command itself.
                with open(path, 'w') as f:
                    f.write('#!/bin/bash\n# property %s\n# %s\ncd %s && export RUST_BACKTRACE=0\n%s\n' % (self.pid, msg.replace('\n', ' ')[:3000], os.path.join(ROOT, 'configs'), args))
                os.chmod(path, 0o755)
                return
            a = list(args)
            if case and '#' in case:
                a = [x for x in a]
                if '--shard' in a and 'race' not in flav:
                    i = a.index('--shard')
                    del a[i:i + 2]
                if 'race' not in flav:
                    a += ['--only', case]
            e = env_for(flav, args)
            td = e['CARGO_TARGET_DIR'] + ('-' + '-'.join(feats) if feats else '')
            keys = ['RUSTFLAGS', 'MIRIFLAGS', 'ASAN_OPTIONS', 'TSAN_OPTIONS']
            sets = ' '.join("%s='%s'" % (k, e[k]) for k in keys if k in e)
            tc, prof, out, _, extra, _ = FLAV[flav]
            q = ' '.join("'%s'" % x for x in a)
            if flav.startswith('miri'):
                c = 'CARGO_TARGET_DIR=%s %s cargo +nightly miri run --offline --quiet %s --bin %s -- %s --trace' % (td, sets, ' '.join((FLAV[flav][1] or []) + features(feats, flav)), bin_, q)
            else:
                c = 'CARGO_TARGET_DIR=%s %s %s run --offline --quiet %s %s %s --bin %s -- %s --trace' % (
                    td, sets, ' '.join(cargo(flav)), ' '.join(prof), ' '.join(extra), ' '.join(features(feats, flav)), bin_, q)
            with open(path, 'w') as f:
                f.write('#!/bin/bash\n# property %s\n# %s\ncd %s && RUST_BACKTRACE=0 %s\n' % (self.pid, msg.replace('\n', ' ')[:3000], HARNESS, c))
            os.chmod(path, 0o755)

    def problem(self, msg):
        with self.lock:
            self.problems.append(msg)

    def record(self, flav, bin_, p, j, args):
        with self.lock:
            self.runs.append(dict(bin=bin_, flavour=flav, seconds=round(p['t'], 1), verdict=j[0], args=' '.join(args)))
            if j[0] == 'ok':
                self.results.append((flav, bin_, j[1]))

    def one(self, flav, bin_, exe, args, feats, timeout):
        prog = os.path.join(self.dir, 'progress-%s-%s-%s' % (flav, bin_, hashlib.md5(' '.join(args).encode()).hexdigest()[:8]))
        if flav.startswith('miri'):
            e = env_for(flav, args)
            if feats:
                e['CARGO_TARGET_DIR'] += '-' + '-'.join(feats)
            cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet'] + (FLAV[flav][1] or []) + features(feats, flav) + ['--bin', bin_, '--'] + args
            p = run(cmd, cwd=HARNESS, env=e, timeout=timeout)
            if p['rc'] not in (0, 3) and not UB.search(p['err']) and 'could not compile' in p['err']:
                self.problem('build failed (%s): %s' % (' '.join(cmd), p['err'][-3000:]))
                return
        else:
            p = run([exe] + args + ['--progress', prog], cwd=HARNESS, env=env_for(flav), timeout=timeout, small=flav in ('dbg', 'nochk', 'o3'))
        j = judge(p, flav, prog)
        if p['timeout'] and not flav.startswith('miri') and j[2] and '#' in j[2]:
            # Is it slow, or does it hang in this case? A single case takes milliseconds.
            q = run([exe] + [x for x in args if x not in ('--shard',) and not re.match(r'^\d+/\d+$', x)] + ['--only', j[2]], cwd=HARNESS, env=env_for(flav), timeout=60, small=True)
            if q['timeout']:
                j = ('violation', 'case %s does not end (stopped after 60 s on its own)' % j[2], j[2])
        if j[0] == 'violation' and 'counts' in self.plan and not re.search(self.plan['counts'], j[1]):
            # A wrong result, which other properties are about; it also ends the run.
            j = ('inconclusive', 'cut short by a failure that is not about this property: ' + j[1])
        self.record(flav, bin_, p, j, args)
        if j[0] == 'violation':
            self.violation(j[1], flav, bin_, args, j[2], feats)
        elif j[0] == 'inconclusive':
            self.problem('%s/%s: %s' % (bin_, flav, j[1]))

    def stage(self, st):
        """st: dict(flav, bins, features, shards, scale, seeds, suite)"""
        flav, bins, feats = st['flav'], st['bins'], st.get('features', [])
        timeout = st.get('timeout', 300 if self.tier == 'quick' else 3000)
        try:
            if flav.startswith('miri'):
                # One build of the dependencies at a time; the first process does it.
                exes = {b: None for b in bins}
                if foreign(flav):
                    why = warm_foreign(flav, feats)
                    if why:
                        # The crate is judged on this machine; others are extra.
                        with self.lock:
                            self.runs.append(dict(bin=','.join(bins), flavour=flav, seconds=0, verdict='skipped: ' + why, args=''))
                        return
                else:
                    warm_miri(feats)
            else:
                exes = build(flav, bins, feats, timeout=800)
        except Inconclusive as x:
            self.problem(str(x))
            return
        jobs = []
        for s in range(st.get('seeds', 1)):
            for b in bins:
                n = st.get('shards', 1)
                if isinstance(n, dict):
                    n = n.get(b, 1)
                for i in range(n):
                    a = ['--seed', str(self.seed + 1000 * s), '--scale', str(st.get('scale', 1.0))]
                    if n > 1:
                        a += ['--shard', '%d/%d' % (i, n)]
                    if 'suite' in st:
                        a += ['--suite', st['suite']]
                    if 'only' in st:
                        a += ['--only', st['only']]
                    jobs.append((b, a))
        with ThreadPoolExecutor(max_workers=st.get('workers', 8)) as ex:
            list(ex.map(lambda ba: SEM_RUN(self.one, flav, ba[0], exes[ba[0]], ba[1], feats, timeout), jobs))

    def go(self):
        stages = self.plan['stages'](self.tier)
        pre = self.plan.get('pre')
        ths = [threading.Thread(target=self.guard, args=(s,)) for s in stages]
        if pre:
            ths.append(threading.Thread(target=self.pre, args=(pre,)))
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return self.finish()

    def guard(self, s):
        try:
            self.stage(s)
        except Exception as x:  # noqa
            import traceback
            self.problem('internal error: ' + traceback.format_exc())

    def pre(self, f):
        try:
            f(self)
        except Exception as x:  # noqa
            import traceback
            self.problem('internal error: ' + traceback.format_exc())

    def finish(self):
        ev = 0
        distinct = 0
        obs = 0
        per, events, by_suite, samples = {}, {}, {}, []
        seen = set()
        for flav, b, r in self.results:
            k = b + '/' + flav
            q = per.setdefault(k, dict(evaluations=0, distinct=0, observations=0))
            q['evaluations'] += r['evaluations']
            q['distinct'] += r['distinct']
            q['observations'] += r['observations']
            ev += r['evaluations']
            obs += r['observations']
            for n, v in list(r['events'].items()) + [(x, r[x]) for x in r if x.startswith(('heap_', 'tracked_'))]:
                events[n] = events.get(n, 0) + v
            for n, v in r['suites'].items():
                d = by_suite.setdefault(n, {})
                d[flav] = d.get(flav, 0) + v
            for s in r['samples']:
                if s not in seen and len(samples) < 12:
                    seen.add(s)
                    samples.append(s)
        # The same histories run in several flavours: count a history once (the flavour that ran most
        # of them), plus what only Miri/other seeds ran is not added.
        suites = {n: max(d.values()) for n, d in by_suite.items()}
        by = {}
        for flav, b, r in self.results:
            by.setdefault((b, flav), 0)
            by[(b, flav)] += r['distinct']
        best = {}
        for (b, flav), d in by.items():
            best[b] = max(best.get(b, 0), d)
        distinct = sum(best.values())
        cov = dict(evaluations=ev, distinct_nontrivial=distinct, rule=self.plan['rule'], samples=samples or ['(none)'],
                   observations_by_monitors=obs, per_run=per, monitored_events=events, cases_per_suite=suites, runs=self.runs)
        cov.update(getattr(self, 'extra', {}))
        if not self.violations and not self.problems and (ev == 0 or obs == 0):
            self.problem('nothing was observed')
        evd = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.plan['level'], coverage=cov,
                   assumptions=self.plan.get('assumptions', PLAN.ASSUME), wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        if self.problems:
            evd['coverage']['inconclusive'] = [x[:500] for x in self.problems]
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
            f.write('\n')
        for k in self.known:
            if k['line'] in self.known_seen:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            seenm = set()
            for msg, path in self.violations:
                key = msg[:60]
                if key in seenm:
                    continue
                seenm.add(key)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  ' + msg[:1200])
            return 1
        if self.problems:
            for x in dict.fromkeys(self.problems):
                m = re.search(r'(?m)^error', x)
                if m and ': ' in x:
                    x = x[:x.index(': ') + 2] + x[m.start():]
                print('INCONCLUSIVE property=%s %s' % (self.pid, x[:1500]))
                if len(x) > 1500:
                    break
            return 2
        print('HELD property=%s: %d cases (%d distinct and non-trivial), %d observations by monitors, %.0f s' %
              (self.pid, ev, distinct, obs, time.time() - self.t0))
        return 0


_sem = threading.BoundedSemaphore(10)


def SEM_RUN(f, *a):
    with _sem:
        return f(*a)


_warm = threading.Lock()
_warm_foreign = threading.Lock()
_warmed = set()


def warm_miri(feats):
    """Build the interpreter's standard library and the dependencies once."""
    with _warm:
        if tuple(feats) in _warmed:
            return
        e = env_for('miri-tree')
        if feats:
            e['CARGO_TARGET_DIR'] += '-' + '-'.join(feats)
        p = run(['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet'] + features(feats, 'miri-tree') + ['--bin', 'nop'], cwd=HARNESS, env=e, timeout=600)
        if p['rc'] != 0:
            raise Inconclusive('Miri does not run: ' + p['err'][-2500:])
        _warmed.add(tuple(feats))


def warm_foreign(flav, feats):
    """The same for another machine; why it cannot be had, or None."""
    with _warm_foreign:
        k = (foreign(flav),) + tuple(feats)
        if k not in _warmed:
            e = env_for(flav)
            if feats:
                e['CARGO_TARGET_DIR'] += '-' + '-'.join(feats)
            p = run(['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet'] + FLAV[flav][1] + features(feats, flav) + ['--bin', 'nop'], cwd=HARNESS, env=e, timeout=600)
            if p['rc'] != 0:
                return 'no program runs on %s: %s' % (FLAV[flav][1][1], p['err'][-1500:])
            _warmed.add(k)


def load_known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        m = re.match(r'finding: property=(\S+) sig=\[(.*?)\] (.*)', line)
        if m and m.group(1) == pid:
            out.append(dict(sig=m.group(2), what=m.group(3), line=line))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    c = Check(pid, tier, seed)
    rc = c.go()
    sys.stdout.flush()
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    sys.exit(rc)


main()
