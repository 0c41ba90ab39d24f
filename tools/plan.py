"""What is run for each property."""

ASSUME = [
    'Verdicts cover the executions that were produced (histories, faults, programs), not all possible ones.',
    'Element types behave: their own clone/eq/hash/fmt/drop are deterministic and do not touch the container.',
    'The monitors observe through the public interface, the global allocator, and the element code; x86_64 Linux (smaller workloads also under Miri as i686 and, thorough, s390x).',
]
HIST = 'Random operation histories (seeded) over the listed element types, each step compared with a typed model; a history is non-trivial if it has at least 6 operations, distinct by the hash of its operations and arguments.'


TECH = 'runtime monitoring: randomized and directed executions of the real code against a typed model, element ledger and guarding allocator, with and without run-time assertions, and under Miri'
NOTE = 'Exploration: the oracle watched the executions listed in the evidence file; nothing is claimed beyond them. Trusts the monitors, the compiler and Miri.'


def native(bins, feats=(), scale=1.0, tscale=4.0, shards=1, seeds=1, tseeds=2, o3=True, asan=False):
    """debug and unchecked builds; thorough adds optimised and ASan builds."""
    def f(tier):
        q = tier == 'quick'
        s = [dict(flav=x, bins=bins, features=list(feats), scale=scale if q else tscale, shards=shards, seeds=seeds if q else tseeds) for x in ('dbg', 'nochk')]
        if not q and o3:
            s.append(dict(flav='o3', bins=bins, features=list(feats), scale=tscale, shards=shards, seeds=tseeds))
        if asan or not q:
            s.append(dict(flav='asan' if not q else 'asandbg', bins=bins, features=list(feats), scale=scale if q else tscale, shards=shards, seeds=1))
        return s
    return f


def miri(bins, feats=(), scale=1.0, tscale=6.0, shards=6, tshards=8, suite=None, stack=False, noleak=False, nochk=False, others=True):
    def f(tier):
        q = tier == 'quick'
        out = []
        for fl in (['miri-tree'] + (['miri-stack'] if stack or not q else [])):
            d = dict(flav=fl + ('-noleak' if noleak else ''), bins=bins, features=list(feats), scale=scale if q else tscale, shards=shards if q else tshards)
            if suite:
                d['suite'] = suite
            out.append(d)
        if nochk:
            out.append(dict(out[0], flav='miri-tree-noleak-nochk'))
        # Other machines: 32-bit words; bytes the other way round.
        for fl in ([] if not others else ['miri-tree-w32'] if q else ['miri-tree-w32', 'miri-tree-be']):
            out.append(dict(out[0], flav=fl + ('-noleak' if noleak else ''), scale=scale * 0.1 if q else tscale * 0.2, shards=2 if q else 4))
        return out
    return f


def both(*fs):
    return lambda tier: [s for f in fs for s in f(tier)]


def one_by_one(bins, cases, flav='miri-tree'):
    """Each case in a process of its own."""
    return lambda tier: [dict(flav=flav, bins=bins, only=c) for c in cases]


def borrows(c):
    import borrow
    borrow.check(c)


def racing(tier):
    q = tier == 'quick'
    out = [dict(flav='dbg', bins=['c15'])]
    out += [dict(flav=f, bins=['c15r'], scale=2.0 if q else 10.0, seeds=1 if q else 4) for f in ('dbg', 'tsan') + (() if q else ('o3',))]
    out += [dict(flav='miri-tree-race', bins=['c15r'], scale=1.0 if q else 2.0, shards=6 if q else 12, seeds=1 if q else 8)]
    out += one_by_one(['c15k'], ['known/%s#0' % k for k in ('copy_view_sends', 'copy_view_shared', 'copy_view_mut_sends', 'copy_view_mut_shared', 'copy_chunks_send')], flav='dbg')(tier)
    return out


def configs(c):
    """C21: the same seeded histories in every configuration; their logs must agree."""
    import os, re, subprocess
    from concurrent.futures import ThreadPoolExecutor
    import __main__ as ck
    crate = os.path.join(ck.ROOT, 'configs')
    feats = ['', 'traits', 'numeric', 'traits,numeric']
    q = c.tier == 'quick'
    profs = [('dev', 'debug'), ('nochk', 'nochk')] + ([] if q else [('release', 'release')])
    cases = 1000 if q else 2500
    seeds = [c.seed] if q else [c.seed, c.seed + 1000, c.seed + 2000]

    def name(f, p):
        return '%s/%s' % (f.replace(',', '+') or 'none', p)

    def env(f):
        e = ck.env_for('dbg')
        e['CARGO_TARGET_DIR'] = os.path.join(ck.TARGET, 'configs-' + (f.replace(',', '-') or 'none'))
        return e

    def built(fp):
        f, (p, d) = fp
        e = env(f)
        r = ck.run(['cargo', 'build', '--offline', '--quiet', '--profile', p] + (['--features', f] if f else []), cwd=crate, env=e, timeout=800)
        if r['rc'] != 0:
            er = re.sub(r'(?s)warning: .*?\n\n', '', r['err'])
            return ck.Inconclusive('build failed (%s): %s' % (name(f, p), er[:1500]))
        return os.path.join(e['CARGO_TARGET_DIR'], d, 'configs')

    def replay(f, p, seed, case):
        e = env(f)
        return 'echo "== %s"; CARGO_TARGET_DIR=%s cargo run --offline --quiet --profile %s %s -- %d %d "%s" 2>/dev/null' % (
            name(f, p), e['CARGO_TARGET_DIR'], p, '--features ' + f if f else '', seed, cases, case)

    combos = [(f, p) for f in feats for p in profs]
    with ThreadPoolExecutor(max_workers=4) as ex:
        # Profiles of one feature set share a directory.
        exes = dict(zip([(f, p[0]) for f, p in combos], ex.map(built, combos)))
    broken = {k: x for k, x in exes.items() if not isinstance(x, str)}
    if len(broken) == len(exes):
        raise list(broken.values())[0]
    for (f, p), x in broken.items():
        c.violation('configs/build#0: a program that builds in other configurations does not build in %s: %s' % (name(f, p), x), 'dbg', None,
                    'CARGO_TARGET_DIR=%s cargo build --offline --profile %s %s' % (env(f)['CARGO_TARGET_DIR'], p, '--features ' + f if f else ''), 'configs/build#0', [])
    if broken:
        return
    combos = [(f, p[0]) for f, p in combos]
    jobs = [(s, f, p) for s in seeds for f, p in combos]

    def runit(j):
        s, f, p = j
        return ck.run([exes[f, p], str(s), str(cases)], cwd=crate, env=env(f), timeout=300 if q else 2000, small=True)
    with ThreadPoolExecutor(max_workers=8) as ex:
        outs = dict(zip(jobs, ex.map(runit, jobs)))
    agree = {}
    for s in seeds:
        logs = {}
        for f, p in combos:
            r = outs[s, f, p]
            d = logs[f, p] = {}
            for m in re.finditer(r'^(\S.*#\d+) ([0-9a-f]{16}) (\d+) (\d+)$', r['out'], re.M):
                d[m.group(1)] = (m.group(2), int(m.group(3)), int(m.group(4)))
            last = (re.findall(r'^CASE (.*)$', r['err'], re.M) or [None])[-1]
            c.runs.append(dict(bin='configs', flavour=name(f, p), seconds=round(r['t'], 1), verdict='ended with %s' % r['rc'], args='%d %d' % (s, cases)))
            if r['timeout']:
                c.problem('configs %s: watchdog fired in case %s' % (name(f, p), last))
            elif r['rc'] != 0 or not r['out'].endswith('END\n'):
                if last is None or r['rc'] == -9:
                    c.problem('configs %s ended with %s: %s' % (name(f, p), r['rc'], r['err'][-500:]))
                else:
                    c.violation('%s: in configuration %s the program ended with %s: %s' % (last, name(f, p), r['rc'], r['err'][-300:]), 'dbg', None, replay(f, p, s, last), last, [])
        ids = set().union(*[set(d) for d in logs.values()])
        bad = 0
        for i in sorted(ids):
            have = [(k, logs[k][i]) for k in combos if i in logs[k]]
            need = [k for k in combos if ('traits' in k[0] or not i.startswith('dyn/')) and ('numeric' in k[0] or not i.startswith('numbers/'))]
            ref = logs['', 'dev'].get(i) or have[0][1]
            rk = ('', 'dev') if i in logs['', 'dev'] else have[0][0]
            off = [k for k, v in have if v != ref]
            if off and bad < 4:
                bad += 1
                k = off[-1]
                a = ck.run([exes[rk], str(s), str(cases), i], cwd=crate, env=env(''), timeout=60)['out'].splitlines()
                b = ck.run([exes[k], str(s), str(cases), i], cwd=crate, env=env(''), timeout=60)['out'].splitlines()
                n = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                if a[:-2] == b[:-2]:
                    c.problem('%s: the hashes differed, the logs of a second run do not' % i)
                    continue
                c.violation('%s: differs between %s and %s from step "%s" on: "%s" against "%s"' % (
                    i, name(*rk), name(*k), next((x for x in reversed(a[:n + 1]) if not x.startswith(' ')), ''), (a + [''])[n][:300], (b + [''])[n][:300]),
                    'dbg', None, replay(*rk, s, i) + '; ' + replay(*k, s, i), i, [])
            for v in set(v for _, v in have):
                pass
            agree.setdefault(len(have), 0)
            agree[len(have)] += 1
            if len(have) != len(need) and not c.problems and not c.violations:
                c.problem('%s: ran in %d of %d configurations' % (i, len(have), len(need)))
        for f, p in combos:
            d = logs[f, p]
            suites = {}
            for i in d:
                suites[i.split('#')[0]] = suites.get(i.split('#')[0], 0) + 1
            c.results.append((name(f, p), 'configs', dict(
                evaluations=len(d), distinct=len(set(v[0] for v in d.values() if v[1] >= 4)), observations=sum(v[1] for v in d.values()),
                events={'operations logged': sum(v[1] for v in d.values()), 'refusals logged': sum(v[2] for v in d.values())}, suites=suites,
                samples=['%s -> %s (%d operations, %d refusals)' % ((i,) + d[i]) for i in list(sorted(d))[:200:70]])))
    c.extra = dict(configurations=[name(*k) for k in combos], histories_compared_across_n_configurations={str(k): v for k, v in agree.items()})


def derived(c):
    import derive
    derive.check(c)


PLAN = {
    'C01': dict(level='exploration', rule=HIST, stages=both(native(['c01']), miri(['c01']))),
    'C02': dict(level='exploration', rule=HIST, stages=both(native(['c02']), miri(['c02']))),
    'C03': dict(level='exploration', rule=HIST + ' Directed cases (every way of handing a value over or failing to) count from one operation on.', stages=both(native(['c03']), miri(['c03']))),
    'C04': dict(level='exploration', rule='Every ordered pair of the look-alike element types times every typed entry point (directed), plus random histories with mismatching accesses; distinct by operations and arguments.', stages=both(native(['c04']), miri(['c04']))),
    'C05': dict(level='exploration', rule='Random and directed histories of every kind of operation on every kind of object, run under Miri (with and without run-time assertions) and AddressSanitizer; only undefined behaviour counts (reports of these, crashes, blocks released wrongly, elements read that are not live). Distinct by operations and arguments.',
                counts=r'Miri|AddressSanitizer|heap:|died by signal|torn|misaligned|destroyed twice|destruction|broken|bool with byte|uninitialised|accepted',
                stages=both(native(['c05'], shards=2, asan=True), miri(['c05'], noleak=True, nochk=True, stack=True), one_by_one(['c05k'], ['known/%s#0' % k for k in ('copy_vector_like_dyn', 'copy_vector_like_view', 'copy_vector_like_value', 'mixed_description', 'box_parts', 'inner_value_ref', 'inner_iter', 'inner_slice', 'inner_slice_as', 'inner_boxed', 'inner_typed', 'inner_clone', 'inner_eq', 'inner_debug', 'user_from', 'user_table')]))),
    'C06': dict(level='fault_enumeration', rule='Every operation of the list, struck by a panic at its 1st, 2nd, ... call into element code until none is left (the number of calls is found by running it); random histories in which most operations are struck; refused operations. After each, everything that exists is audited and used further. Distinct by operations, arguments and struck call.', stages=both(native(['c06'], shards=3), miri(['c06'], noleak=True))),
    'C07': dict(level='exploration', rule='Each case compares, for one element type, length and container or view, all interesting indices, ranges and counts (near the length, wrapping when scaled, huge) with a typed slice; distinct by element type, length, kind and contents.', stages=both(native(['c07'], shards=3), miri(['c07']))),
    'C08': dict(level='exploration', rule='Random chains of view operations; non-trivial from two operations on, distinct by operations and arguments.', stages=both(native(['c08']), miri(['c08']))),
    'C09': dict(level='exploration', rule='Random scripts of iterator calls for every way of iterating; non-trivial from two steps on, distinct by calls and lengths.', stages=both(native(['c09']), miri(['c09']))),
    'C10': dict(level='exploration', rule='Random pairs of contents of every element type compared, hashed and formatted in every way next to the typed ones; distinct by contents.', stages=both(native(['c10'], shards=3), miri(['c10']))),
    'C11': dict(level='exploration', rule='Random histories of one or several erased values (boxed and word-sized) of every element type: made, narrowed, compared, cloned, stored, taken out, swapped, moved; distinct by operations and arguments.', stages=both(native(['c11']), miri(['c11']))),
    'C12': dict(level='exploration', rule='Random histories of element references of every kind: read, cast, assigned, cloned into, swapped, copied; distinct by operations and arguments.', stages=both(native(['c12']), miri(['c12']))),
    'C13': dict(level='exploration', rule='Every way of cloning or copying, followed by changes to one side; distinct by way, length and contents.', stages=both(native(['c13']), miri(['c13']))),
    'C14': dict(level='exploration', rule='Random sequences of table changes (narrowing, dynamic tables and back, taking apart and reassembling) of vectors, views, references and values, with use in between; distinct by sequence, length and contents.', stages=both(native(['c14'], shards=2), miri(['c14']))),
    'C15': dict(level='exploration', rule='Every erased type and iterator crossed with every built-in table, 96 generated tables (every supported subset of capabilities), dynamic tables and inherited ones: the traits the compiled program says it implements, compared with the capabilities of the table; and threads (2 to 6) that share, split, hand over and change erased things as their tables allow, with their results compared to a sequential model, under ThreadSanitizer and under Miri with a different schedule in every process. Claims are distinct by type, table and trait; thread runs by seed.',
                technique='runtime monitoring: claims probed in the running program against the table; threaded workloads under ThreadSanitizer and the Miri race detector',
                stages=racing),
    'C16': dict(level='exploration', rule='Client programs generated from owners (27 kinds of storage and views), what borrows from them (every public function that does) and ways of misusing it (outliving, freed, changed, taken twice, read while exclusive), with correct twins. What the compiler accepts of the hostile ones is executed under Miri, as are the correct ones. Distinct by program.',
                technique='runtime monitoring: hostile and correct client programs, executed under Miri wherever the compiler lets them come into existence',
                stages=lambda tier: [], pre=borrows),
    'C17': dict(level='exploration', rule='Random round trips, fills up to a known capacity, appends, and growth one element at a time, for every element type; addresses and capacities compared before and after. Distinct by operations and sizes.', stages=both(native(['c17'], shards=2), miri(['c17']))),
    'C18': dict(level='exploration', rule='Random histories of containers, views, values and references of every element size and alignment (1 byte to 2^27); every address handed out is checked, over an allocator that never aligns better than asked. Distinct by operations.', stages=both(native(['c18'], shards=2), miri(['c18']))),
    'C19': dict(level='exploration', rule='Random contents (limits, values next to powers of two, fractions, infinities, NaN) of each element type converted to each target type, compared with conversions worked out in exact integers; every form of the dispatch macro with every element type; distinct by types and contents.', stages=both(native(['c19'], feats=['numeric'], shards=2), miri(['c19'], feats=['numeric'], shards=3))),
    'C20': dict(level='exploration', rule='Declarations drawn from a seed (single traits, modules with chains and diamonds of inheritance, inside functions, separate attributes naming each other; orders of capabilities, renamed crate, suffixes, methods, generic and lifetime bounds), each with an element type that has exactly what is declared and common ones; every call of element code recorded and compared with the typed operation, on the table itself and after every declared upcast and dynamic conversion. Distinct by declaration, element, path of conversions and operation.',
                technique='runtime monitoring: generated client programs with elements that record every capability call, run natively and under Miri against the typed operation',
                stages=lambda tier: [], pre=derived),
    'C21': dict(level='exploration', rule='Seeded histories of containers, views, values, references, conversions and refusals (including refusals by panic) run in every combination of the features traits and numeric, with and without run-time assertions; the log of everything observable must be the same wherever the history exists. Non-trivial from four operations on; distinct by log.',
                technique='runtime monitoring: differential recording of the event logs of the same seeded histories in every build configuration, compared offline',
                stages=lambda tier: [], pre=configs),
    'C22': dict(level='exploration', rule='Random histories with refused operations, the description of everything handed out read after each step; and vectors made from every kind of description, used after the source is gone. Distinct by operations and sizes.', stages=both(native(['c22'], shards=2), miri(['c22']))),
}
