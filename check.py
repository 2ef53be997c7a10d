#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> — compiles the contracts of one property with /repo's current headers, generates and discharges
every proof obligation, replays counterexamples on the real code, and writes evidence/<property>.json."""
import glob, json, multiprocessing, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(40000)
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

NATIVE = ['clang++', '-std=c++14', '-O1', '-fno-access-control', '-w', '-DVC_NATIVE',
          '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,pointer-overflow,unreachable,return',
          '-fsanitize-trap=all']
# "// NATIVE: g++" in a contract file: its runs on the real code are compiled by the other compiler.
NATIVE_GCC = ['g++', '-std=c++14', '-O1', '-fno-access-control', '-w', '-DVC_NATIVE', '-Dalways_inline=unused',
              '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,unreachable,return', '-fsanitize-undefined-trap-on-error']
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-I' + os.path.join(HERE, 'contracts')]

TRUSTED = [
    'clang 18 front end (C++14 to LLVM IR, no optimisation passes before inlining) and the LLVM passes always-inline and sroa',
    'engine/: the verification condition generator for LLVM IR (symbolic execution, loop summaries, ghost multisets)',
    'z3 (linear/nonlinear integer arithmetic) and cvc5 answers "unsat"',
    'contracts/vc.h and the contract texts state the property',
]


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def worker(mod, name, deadline, scale, conn):
    """Verify one contract; sends a result dictionary."""
    t0 = time.time()
    res = {'contract': name, 'status': 'error', 'fails': []}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        import terms as t, exec as X, solve
        t.reset()
        solve.SCALE = scale
        solve.STATS.update(queries=0, time=0.0)
        ex = X.Exec(mod, {})
        ex.deadline = time.time() + deadline
        giveup = None
        try:
            r = ex.call_fn(mod.fns[name], [], X.State())
        except X.Giveup as e:
            giveup = str(e)
            r = []
        except RecursionError:
            giveup = 'recursion'
            r = []
        by, kinds = {}, {}
        for o in ex.obs:
            k = kinds.setdefault(o.kind, [0, 0])
            k[0] += 1
            if o.status == 'proved':
                k[1] += 1
                by[o.by] = by.get(o.by, 0) + 1
            else:
                res['fails'].append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'status': o.status, 'goal': o.goal,
                                     'pc': o.pc, 'model': o.model})
        for k, n in ex.triv.items():
            kk = kinds.setdefault(k, [0, 0])
            kk[0] += n
            kk[1] += n
            by['interval/normaliser'] = by.get('interval/normaliser', 0) + n
        if giveup is not None:
            res['fails'].append({'name': 'the verifier covers every path', 'kind': 'engine', 'loc': '', 'status': 'giveup',
                                 'goal': giveup, 'pc': '', 'model': None})
        elif not r and not ex.reached:
            res['fails'].append({'name': 'the contract is satisfiable (some path reaches its end)', 'kind': 'vacuity', 'loc': '',
                                 'status': 'vacuous', 'goal': '', 'pc': '', 'model': None})
        elif not ex.posts and not any(o.kind == 'assert' for o in ex.obs):
            res['fails'].append({'name': 'the contract has a postcondition that is reached', 'kind': 'vacuity', 'loc': '',
                                 'status': 'vacuous', 'goal': '', 'pc': '', 'model': None})
        res.update(status='ok' if not res['fails'] else 'unproved', by=by, kinds=kinds, posts=sorted(ex.posts),
                   paths=len(r) + ex.reached, steps=ex.steps, queries=solve.STATS['queries'], solver=solve.STATS['time'],
                   loops=len(ex.loops_done))
    except MemoryError:
        res['fails'] = [{'name': 'the verifier covers every path', 'kind': 'engine', 'loc': '', 'status': 'giveup', 'goal': 'memory',
                         'pc': '', 'model': None}]
    except Exception:
        res['fails'] = [{'name': 'the verifier covers every path', 'kind': 'engine', 'loc': '', 'status': 'error',
                         'goal': traceback.format_exc()[-1500:], 'pc': '', 'model': None}]
    res['wall'] = time.time() - t0
    conn.send(res)
    conn.close()


class Pool:
    """Runs forked jobs, at most JOBS at a time; each has a hard time limit."""

    def __init__(self):
        self.run, self.todo, self.done = [], [], []

    def add(self, fn, args, limit, key):
        self.todo.append((fn, args, limit, key))
        self.pump(False)

    def pump(self, block):
        while True:
            while self.todo and len(self.run) < JOBS:
                fn, args, limit, key = self.todo.pop(0)
                a, b = multiprocessing.Pipe(False)
                p = multiprocessing.get_context('fork').Process(target=fn, args=args + (b,), daemon=True)
                p.start()
                b.close()
                self.run.append((p, a, time.time() + limit, key))
            for x in list(self.run):
                p, a, dl, key = x
                r = None
                if a.poll():
                    try:
                        r = a.recv()
                    except EOFError:
                        pass
                elif p.is_alive() and time.time() < dl:
                    continue
                elif a.poll(0.05):
                    continue
                if p.is_alive() and r is None:
                    p.kill()
                p.join(5)
                if r is None:
                    r = {'contract': key, 'status': 'error', 'wall': 0, 'fails': [
                        {'name': 'the verifier covers every path', 'kind': 'engine', 'loc': '', 'status': 'timeout',
                         'goal': 'killed or crashed', 'pc': '', 'model': None}]}
                self.run.remove(x)
                self.done.append((key, r))
            if not block or not (self.run or self.todo):
                return
            time.sleep(0.01)


def native_job(exe, args, limit, conn):
    try:
        r = sh([exe] + args, timeout=limit)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'RESULT STOP timeout\n'
    conn.send({'out': out})
    conn.close()


def parse_native(out):
    kind, msg, inp = 'STOP', '', []
    for l in out.splitlines():
        if l.startswith('RESULT '):
            p = l.split(' ', 2)
            kind, msg = p[1], p[2] if len(p) > 2 else ''
        elif l.startswith('INPUT '):
            inp.append(l[6:])
    return kind, msg, inp


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    only = sys.argv[3:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        code = check(prop, tier, seed, t0, budget, tmp, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def roots(tier):
    return lambda n: n.startswith('C_')


def check(prop, tier, seed, t0, budget, tmp, only):
    import llvm
    isroot = roots(tier)
    srcs = sorted(glob.glob(os.path.join(HERE, 'contracts', prop + '.cpp')) + glob.glob(os.path.join(HERE, 'contracts', prop + '_*.cpp')))
    results, errors = {}, []
    # compile: bitcode and native binary of every contract file
    procs = []
    defs = ['VC_TIER=%d' % (0 if tier == 'quick' else 1)]
    nat_o = os.path.join(tmp, 'native.o')
    procs.append(('native', None, subprocess.Popen(NATIVE + INC + ['-c', os.path.join(HERE, 'contracts', 'native.cpp'), '-o', nat_o],
                                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bcs, exes = {}, {}
    for s in srcs:
        b = os.path.splitext(os.path.basename(s))[0]
        bcs[b] = os.path.join(tmp, b + '.bc')
        exes[b] = os.path.join(tmp, b)
        cmd = ['clang++', '-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-gline-tables-only',
               '-fno-access-control', '-w', '-emit-llvm', '-c', s, '-o', bcs[b]] + INC + ['-D' + d for d in defs]
        procs.append(('bc', b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        procs.append(('obj', b, subprocess.Popen((NATIVE_GCC if '// NATIVE: g++' in open(s).read() else NATIVE) + INC +
                                                 ['-D' + d for d in defs] + ['-c', s, '-o', exes[b] + '.o'],
                                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    pool = Pool()
    contract_src = {}
    fns = {}
    deadline = 420 if tier == 'quick' else 3 * 3600
    mods = {}
    for kind, b, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            errors.append('compiling %s (%s) against the current headers failed:\n%s' % (b, kind, out[:3000]))
            continue
        if kind != 'bc':
            continue
        try:
            L = llvm.Loader(bcs[b])
            L.prepare(isroot, lambda n: False)
            mod = L.load(lambda n: isroot(n) or n in L.recursive)
        except Exception:
            errors.append('loading %s failed:\n%s' % (b, traceback.format_exc()[-1500:]))
            continue
        mods[b] = mod
        for n in mod.fns:
            if isroot(n) and (not only or n[2:] in only):
                contract_src[n] = b
                seen, todo = set(), [n]
                while todo:
                    x = todo.pop()
                    for y in mod.graph.get(x, ()):
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
                fns[n] = seen
                pool.add(worker, (mod, n, deadline, 1), deadline + 60, n)
    t_comp = time.time() - t0
    pool.pump(True)
    for k, r in pool.done:
        results[k] = r
    if not errors:
        for b in exes:
            r = sh(['clang++', exes[b] + '.o', nat_o, '-o', exes[b]])
            if r.returncode:
                errors.append('linking %s failed:\n%s' % (b, r.stderr[:2000]))
    # the real code: replay of every counterexample, and a cross-check of every contract on random inputs
    natfail = {}
    runs = {}
    if not errors:
        pool = Pool()
        secs = 1.5 if tier == 'quick' else 20
        for n, b in contract_src.items():
            bad = bool(results[n]['fails'])
            pool.add(native_job, (exes[b], ['run', n[2:], '1000000' if bad else '40000' if tier == 'quick' else '1000000', str(seed), str(secs * (8 if bad else 1))], 120), 130, ('run', n))
            k = 0
            for f in results[n]['fails']:
                if f['model'] and k < 12:
                    k += 1
                    inp = ['%s=%d' % (a, v) for a, v in f['model'].items()]
                    pool.add(native_job, (exes[b], ['replay', n[2:]] + inp, 60), 70, ('replay', n))
        pool.pump(True)
        for (k, n), r in pool.done:
            kind, msg, inp = parse_native(r.get('out', ''))
            if k == 'run':
                m = re.search(r'completed=(\d+)', msg)
                runs[n] = int(m.group(1)) if m else 0
            if kind == 'FAIL' and n not in natfail:
                natfail[n] = (msg, inp)
    # undecided obligations without a failing input: once more with more time for the solvers
    again = [n for n in contract_src if results[n]['fails'] and n not in natfail]
    if again and not natfail and not errors and time.time() - t0 < budget / 2:
        pool = Pool()
        for n in again:
            pool.add(worker, (mods[contract_src[n]], n, min(deadline, budget - (time.time() - t0) - 60), 4), max(30, budget - (time.time() - t0) - 40), n)
        pool.pump(True)
        for k, r in pool.done:
            r['retried'] = True
            results[k] = r
    if not contract_src and not errors:
        errors.append('no contract found for %s' % prop)
    return report(prop, tier, seed, t0, t_comp, results, natfail, runs, errors, contract_src, fns, srcs)


def short(fn):
    """A demangled function name without parameter list and template arguments."""
    d, out = 0, ''
    for ch in fn:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            if ch == '(':
                if not out.endswith('operator'):
                    break
            out += ch
    return out.split(' ')[-1] if 'operator' not in out else out


def report(prop, tier, seed, t0, t_comp, results, natfail, runs, errors, contract_src, fns, srcs):
    import llvm
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation=\[(.*?)\] (.*)', l)
            if m and m.group(1) == prop:
                known.append(m.groups())
    tot, dis, by, kinds = 0, 0, {}, {}
    btot = bdis = 0
    for n, r in results.items():
        bounded = n.endswith('_bounded')
        for k, (a, b) in r.get('kinds', {}).items():
            if bounded:
                btot += a
                bdis += b
                continue
            kk = kinds.setdefault(k, [0, 0])
            kk[0] += a
            kk[1] += b
            tot += a
            dis += b
        if not bounded:
            for k, v in r.get('by', {}).items():
                by[k] = by.get(k, 0) + v
    names = set().union(*fns.values()) if fns else set()
    dm = llvm.demangle(names)
    under = sorted({short(d) for d in dm.values() if 'nda::' in d} - {''})
    under = [u for u in under if u.startswith('nda')]
    viol, told = [], set()
    for n in sorted(results):
        r = results[n]
        fails = r['fails']
        kept = []
        for f in fails:
            hit = [k for k in known if k[1] == n[2:] and k[2] in f['name']]
            if hit:
                if hit[0][3] not in told:
                    print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
                told.add(hit[0][3])
            else:
                kept.append(f)
        if n in natfail and any(k[1] == n[2:] and k[2] in natfail[n][0] for k in known):
            del natfail[n]      # the run of the real code fails as the known finding says
        if kept or n in natfail:
            viol.append((n not in natfail, n, kept))
    viol.sort(key=lambda v: (v[0], v[1]))
    bounded = sorted(n[2:] for n in contract_src if n.endswith('_bounded'))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': tot, 'discharged': dis,
            'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'contracts': {n[2:]: {'source': os.path.basename(contract_src[n]) + '.cpp', 'status': r['status'],
                                  'postconditions': r.get('posts', []), 'paths': r.get('paths', 0),
                                  'obligations': sum(a for a, b in r.get('kinds', {}).values()),
                                  'seconds': round(r['wall'], 2), 'native_runs': runs.get(n, 0)} for n, r in sorted(results.items()) if n in contract_src},
            'obligations_by_kind': {k: {'generated': a, 'discharged': b} for k, (a, b) in sorted(kinds.items())},
            'discharged_by': by,
            'functions_under_contract': under,
            'functions_under_contract_count': len(under),
            'instantiations_verified': sum('nda::' in d for d in dm.values()),
            'solver_queries': sum(r.get('queries', 0) for r in results.values()),
            'solver_seconds': round(sum(r.get('solver', 0) for r in results.values()), 2),
            'bounded_contracts': bounded, 'bounded_obligations': btot, 'bounded_discharged': bdis,
            'native_crosscheck_runs': sum(runs.values()),
        },
        'assumptions': assumptions(srcs),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(errors),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    code = 0
    if viol or errors:
        code = 1
        path = os.path.join(HERE, 'evidence', prop + '.replay.txt')
        noinput = True
        with open(path, 'w') as f:
            f.write('property %s: violation\n' % prop)
            for e in errors:
                f.write('\n== %s\n' % e)
            for no, n, kept in viol:
                f.write('\n== contract %s (contracts/%s.cpp)\n' % (n[2:], contract_src.get(n, '?')))
                if n in natfail:
                    noinput = False
                    f.write('failing run of the real code: %s\ninputs: %s\n' % (natfail[n][0], ' '.join(natfail[n][1])))
                    f.write('again: python3 check.py --replay %s %s %s\n' % (prop, n[2:], ' '.join(natfail[n][1])))
                for o in kept[:12]:
                    f.write('failed obligation: [%s] %s %s -> %s\n  goal: %s\n  context: %s\n  model: %s\n' % (
                        o['kind'], o['name'], o['loc'], o['status'], o['goal'], o['pc'], o['model']))
        for no, n, kept in viol[:4]:
            what = natfail[n][0] if n in natfail else kept[0]['name'] + ' ' + kept[0]['loc'] if kept else ''
            print('%s: %s%s' % (n[2:], what, ' [inputs: %s]' % ' '.join(natfail[n][1]) if n in natfail else ''))
        for e in errors[:2]:
            print(e[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if noinput else ''))
    else:
        print('%s: %d obligations of %d contracts discharged (%d bounded), %.1f s' % (prop, dis, len(contract_src), bdis, time.time() - t0))
    if os.environ.get('VC_SHOW'):
        for n, r in sorted(results.items(), key=lambda x: -x[1]['wall'])[:int(os.environ['VC_SHOW'])]:
            print('   %-30s %6.1fs %s obs %d' % (n, r['wall'], r['status'], sum(a for a, b in r.get('kinds', {}).values())))
    return code


def assumptions(srcs):
    out = [
        'Shape parameters range over |min|, extent <= 2^14 and |stride| <= 2^20 unless the contract states otherwise: machine arithmetic is checked (every signed overflow is an obligation), not assumed mathematical.',
        'Template parameters (rank, static mins/extents/strides, element and function types) are the instantiations listed in the contracts; run-time values are unbounded within the ranges above.',
        'Elements are an abstract empty type: every element access goes through its recorded constructor, assignment, comparison or destructor.',
        'Library code is compiled with asserts enabled and without exceptions.',
    ]
    for s in srcs:
        for l in open(s):
            m = re.match(r'\s*// ASSUME: (.*)', l)
            if m:
                out.append(m.group(1))
    return out


def replay():
    prop, contract, inp = sys.argv[2], sys.argv[3], sys.argv[4:]
    tmp = tempfile.mkdtemp(prefix='vr_')
    try:
        for s in sorted(glob.glob(os.path.join(HERE, 'contracts', prop + '*.cpp'))):
            if not re.search(r'CONTRACT(_T)?\(%s\)|\b%s\b' % (contract, contract), open(s).read()) and len(glob.glob(os.path.join(HERE, 'contracts', prop + '*.cpp'))) > 1:
                continue
            exe = os.path.join(tmp, 'x')
            r = sh(NATIVE + INC + ['-DVC_TIER=1', s, os.path.join(HERE, 'contracts', 'native.cpp'), '-o', exe])
            if r.returncode:
                print(r.stderr)
                sys.exit(1)
            r = sh([exe, 'replay', contract] + inp)
            print(r.stdout)
            if 'NOCONTRACT' not in r.stdout:
                sys.exit(r.returncode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(2)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--replay':
        replay()
    main()
