#!/usr/bin/env python3
"""Decide one property by discharging its contracts on /repo's current source.

  check.py <ID>            decide (exit 0 held / 1 VIOLATION / 2 no answer)
  check.py replay <file>   replay a recorded violation on the real code

Stages: (1) Kani proves every contract harness of the property against the real
crate (path dependency on /repo); (2) Verus proves the functions extracted
mechanically from /repo (unbounded loops); (3) the same contracts run natively:
vacuity witnesses for every precondition, closed-term bindings, and, when an
obligation fails, the search for / replay of a failing input.
"""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
RS = os.path.join(V, 'rs')
REPO = '/repo'
WORK = os.path.join(V, 'work')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
sys.path.insert(0, V)
from props import PROPS, COMMON_TRUST  # noqa

T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
BUDGET = 840 if TIER == 'quick' else 3300


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


HOOK = False  # set per property: build /repo with --cfg rtforth_verif


def env(kani):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.pop('RUSTFLAGS', None)
    if HOOK:
        e['RUSTFLAGS'] = '--cfg rtforth_verif'
    if not kani:
        e['RUSTUP_TOOLCHAIN'] = NIGHTLY
    return e


def run(cmd, timeout, cwd=RS, kani=False, quiet=True):
    """run in its own process group; kill the whole group on timeout"""
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=env(kani), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out


def mine_pool(path):
    """integer constants of the source under test, for the replay search"""
    vals = set()
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                t = open(os.path.join(root, f), errors='replace').read().split('#[cfg(test)]')[0]
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|size))?\b', t):
                    try:
                        v = int(m.group(1).replace('_', ''), 0)
                    except ValueError:
                        continue
                    if v > 1 and v < 2**63:
                        vals.update((v, -v))
                for m in re.finditer(r"'(.)'", t):
                    vals.add(ord(m.group(1)))
    open(path, 'w').write(' '.join(map(str, sorted(vals))))


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- Kani
def kani(features, harnesses=None, solver=None, timeout=240, extra=(), total=None, cbmc=()):
    js = os.path.join(WORK, 'kani-%d.json' % os.getpid())
    if os.path.exists(js):
        os.remove(js)
    cmd = ['cargo', 'kani', '--features', ','.join(features), '-Z', 'stubbing', '-Z', 'unstable-options',
           '--no-assertion-reach-checks', '--export-json', js, '--harness-timeout', '%ds' % timeout,
           '-j', '8', '--output-format', 'terse', *extra]
    if solver:
        cmd += ['--solver', solver]
    for h in harnesses or []:
        cmd += ['--harness', h]
    if harnesses:
        cmd += ['--exact']
    if cbmc:
        cmd += ['--cbmc-args', *cbmc]
    rc, out = run(cmd, min(total or left() - 30, left() - 10), kani=True)
    if not os.path.exists(js):
        return None, out, ' '.join(cmd)
    d = json.load(open(js))
    os.remove(js)
    rs = sorted(d['verification_results']['results'], key=lambda r: -(r.get('duration_ms') or 0))[:4]
    log('slowest:', [(r['harness_id'].split('::')[-1], r.get('duration_ms')) for r in rs])
    return d, out, ' '.join(cmd)


LIMIT = re.compile(r'unwinding assertion|unsupported|not currently supported|is not supported|recursion unwinding', re.I)


def classify(res):
    """-> ('ok'|'fail'|'undet', [(descr, where)], nchecks, nsuccess)"""
    if not res['checks']:
        return 'undet', [('no result (timeout or solver failure)', '')], 0, 0
    bad, lim, ok = [], [], 0
    for c in res['checks']:
        st = c['status']
        if st in ('Success', 'Unreachable', 'Satisfied', 'Unsatisfiable'):
            ok += 1
            continue
        where = '%s:%s in %s' % (c['location'].get('file'), c['location'].get('line'), c['function'])
        d = c['description']
        if st == 'Failure' and not LIMIT.search(d) and c.get('category') not in ('unsupported_construct', 'unwind'):
            bad.append((d, where))
        else:
            lim.append((d, where))
    if bad:
        # a failed unwinding assertion or unsupported construct makes other
        # verdicts unreliable only in the direction of missing failures
        return 'fail', bad, len(res['checks']), ok
    if lim:
        return 'undet', lim, len(res['checks']), ok
    if res['status'] != 'Success':
        return 'undet', [('harness status ' + res['status'], '')], len(res['checks']), ok
    return 'ok', [], len(res['checks']), ok


# ---------------------------------------------------------------- native
def native_bin(features):
    rc, out = run(['cargo', 'build', '--offline', '--features', ','.join(features)], 400)
    if rc != 0:
        raise NoAnswer('the contracts do not compile against this tree (lost anchor):\n' + '\n'.join(re.findall(r'^error.*(?:\n(?!warning).*){0,12}', out, re.M))[:4000])
    return os.path.join(RS, 'target/debug/native')


def native_run(nb, pid, h, cases, seed, ms, pool, tag=''):
    st = os.path.join(WORK, 'st-%s-%s%s-%d' % (pid, h, tag, os.getpid()))
    rc, out = run([nb, 'run', pid, h, '--cases', str(cases), '--seed', str(seed), '--status', st,
                   '--ms', str(ms), '--pool', pool], ms / 1000 + 30)
    r = {'h': h, 'seed': seed, 'rc': rc, 'cases': 0, 'hits': 0, 'labels': {}, 'fail': None}
    m = re.search(r'DONE cases=(\d+) skipped=(\d+) hits=(\d+)', out)
    if m:
        r['cases'] = int(m.group(1)) - int(m.group(2))
        r['hits'] = int(m.group(3))
    for m in re.finditer(r'^HIT (\d+) (.*)$', out, re.M):
        r['labels'][m.group(2)] = int(m.group(1))
    m = re.search(r'^FAIL case=(\d+) (.*)$', out, re.M)
    if m:
        r['fail'] = (int(m.group(1)), m.group(2))
    elif rc not in (0, 1):
        try:
            case = int(open(st).read())
            what = 'did not finish' if rc == -999 else 'process died with signal/exit %d' % rc
            r['fail'] = (case, what + ': ' + out[-300:].replace('\n', ' '))
        except (OSError, ValueError):
            pass
    try:
        os.remove(st)
    except OSError:
        pass
    return r


def native_inputs(nb, pid, h, seed, case, pool):
    rc, out = run([nb, 'case', pid, h, '--seed', str(seed), '--case', str(case), '--pool', pool], 60)
    return out[-6000:]


def replay_file(pid, h, data):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    json.dump(data, open(p, 'w'), indent=1)
    return p


def find_input(nb, pid, feats, h, failed, pool, secs):
    """search for a failing input of contract `h` on the real code"""
    data = {'property': pid, 'contract': h, 'failed_obligations': failed, 'how': None, 'features': feats}
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: native_run(nb, pid, h, 10**9, SEED * 1000 + k, int(secs * 1000), pool, str(k)), range(8)))
    hit = next((r for r in rs if r['fail']), None)
    if hit:
        data.update(how='native', seed=hit['seed'], case=hit['fail'][0], message=hit['fail'][1],
                    inputs=native_inputs(nb, pid, h, hit['seed'], hit['fail'][0], pool))
        return data, True
    # the verifier's own counterexample, with a SAT back end, replayed natively
    for feat in (['cex'], []):
        if left() < 60:
            break
        cmd = ['cargo', 'kani', '--features', ','.join(feats + feat), '-Z', 'stubbing', '-Z', 'unstable-options',
               '-Z', 'concrete-playback', '--concrete-playback=print', '--no-assertion-reach-checks',
               '--harness-timeout', '280s', '--solver', 'cadical', '--output-format', 'terse', '--exact',
               '--harness', harness_name(pid, h)]
        rc, out = run(cmd, min(left() - 40, 300), kani=True)
        m = re.search(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', out, re.S)
        if not m:
            continue
        vals = re.findall(r'vec!\[([\d, ]*)\]', m.group(1))
        vf = os.path.join(WORK, 'vals-%s-%s' % (pid, h))
        open(vf, 'w').write('\n'.join(v.replace(',', ' ') for v in vals) + '\n')
        data['verifier_counterexample'] = vals[:200]
        nb2 = native_bin(feats + feat)
        rc, out = run([nb2, 'vals', pid, h, '--vals', vf], 60)
        data['native_replay_of_counterexample'] = out[-3000:]
        if rc not in (0,):
            data.update(how='vals', vals=open(vf).read(), features=feats + feat, inputs=out[-6000:])
            return data, True
    return data, False


def harness_name(pid, h):
    return '%s::%s' % (PROPS[pid].get('module', pid.lower()), h)


# ---------------------------------------------------------------- main
def known(pid):
    out = []
    p = os.path.join(V, 'known-findings')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) contract=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def decide(pid):
    global HOOK
    P = PROPS[pid]
    HOOK = bool(P.get('hook'))
    feats = [pid.lower()] + list(P.get('features', []))
    os.makedirs(WORK, exist_ok=True)
    pool = os.path.join(WORK, 'pool-%d' % os.getpid())
    mine_pool(pool)
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': P['level'], 'coverage': {}, 'wall_s': 0,
          'assumptions': list(COMMON_TRUST) + list(P.get('assumptions', [])), 'violations': 0}
    viol, notes = [], []
    # native build first: cheap, and needed for everything else
    nb = native_bin(feats)
    rc, out = run([nb, 'list'], 30)
    names = [l.split()[1] for l in out.splitlines() if l.startswith(pid + ' ')]
    if not names and not P.get('verus'):
        raise NoAnswer('no contracts')
    bounded = P.get('bounded', {})
    nonkani = set(l.split()[1] for l in out.splitlines() if l.startswith(pid + ' ') and l.endswith(' closed'))
    results, solver_s, cmd, checks_total, checks_ok = {}, 0.0, '', 0, 0
    if [n for n in names if n not in nonkani]:
        log('kani: %d contracts' % len([n for n in names if n not in nonkani]))
        mine = [n for n in names if n not in nonkani]
        # arrays indexed with constants only: split into their cells
        cells = [n for n in P.get('cells', []) if n in mine]
        rest = [n for n in mine if n not in cells]
        groups = []
        if rest:
            groups.append(([harness_name(pid, n) for n in rest] if cells or P.get('features') else None, ()))
        if cells:
            groups.append(([harness_name(pid, n) for n in cells], ('--max-field-sensitivity-array-size', str(P.get('cells_n', 300)))))
        for hs, cb in groups:
            d, out, cmd = kani(feats, hs, timeout=P.get('timeout', 240), cbmc=cb, extra=P.get('kani', ()))
            if d is None:
                log(out[-3000:])
                raise NoAnswer('Kani could not compile or run the contracts on this tree')
            for r in d['verification_results']['results']:
                results[r['harness_id'].split('::')[-1]] = r
            for c in d['cbmc']:
                s = c.get('cbmc_stats') or {}
                solver_s += s.get('runtime_decision_procedure_s') or 0
    verdict = {}
    for n in names:
        if n in nonkani:
            continue
        r = results.get(n)
        verdict[n] = classify(r) if r else ('undet', [('not run', '')], 0, 0)
    retry = [n for n, v in verdict.items() if v[0] == 'undet' and not any(LIMIT.search(d) for d, _ in v[1])]
    if retry and left() > 200:
        log('retrying with cadical:', retry)
        d, out, _ = kani(feats, [harness_name(pid, n) for n in retry], 'cadical', 300, extra=P.get('kani', ()))
        if d:
            for r in d['verification_results']['results']:
                n = r['harness_id'].split('::')[-1]
                v = classify(r)
                if v[0] != 'undet':
                    verdict[n] = v
    # Verus
    vres = []
    if P.get('verus'):
        import verus_run
        vres = verus_run.run_all([getattr(verus_run, u) for u in P['verus']], REPO, WORK, left, log)
    # native: vacuity witnesses and concrete sanity
    log('native: vacuity witnesses')
    ms = P.get('native_ms', 2500) if TIER == 'quick' else 20000
    with cf.ThreadPoolExecutor(8) as ex:
        nat = {r['h']: r for r in ex.map(lambda h: native_run(nb, pid, h, P.get('native_cases', 4000) if TIER == 'quick' else 10**8, SEED, ms, pool), names)}
    kf = known(pid)
    obligations = discharged = bounded_n = 0
    undet = []
    samples = []
    for n in names:
        r = nat[n]
        if n in verdict:
            st, bad, nc, nok = verdict[n]
            checks_total += nc
            checks_ok += nok
            is_b = n in bounded
            if is_b:
                bounded_n += 1
            else:
                obligations += 1
            if st == 'ok':
                if not is_b:
                    discharged += 1
                if r['fail']:
                    viol.append((n, [('native run of the contract: ' + r['fail'][1], '')], r))
                elif r['hits'] == 0:
                    notes.append('no native witness for the precondition of ' + n)
            elif st == 'fail' and n in P.get('abstract', []) and not r['fail']:
                # the proof abstracts std's multiplication/division; only a
                # concrete failing input makes this a violation
                w = native_run(nb, pid, n, 10**9, SEED + 77, 20000, pool, 'abs')
                if w['fail']:
                    viol.append((n, bad, w))
                else:
                    undet.append((n, bad))
            elif st == 'fail':
                viol.append((n, bad, r))
            else:
                undet.append((n, bad))
                if r['fail']:
                    viol.append((n, [('native run of the contract: ' + r['fail'][1], '')], r))
        else:
            bounded_n += 1
            if r['fail']:
                viol.append((n, [('closed-term evaluation: ' + r['fail'][1], '')], r))
            elif r['cases'] == 0:
                undet.append((n, [('not evaluated', '')]))
        if len(samples) < 8:
            samples.append({'contract': n, 'native_cases': r['cases'], 'precondition_witnesses': r['labels']})
    vac = [n for n in names if nat[n]['hits'] == 0 and not nat[n]['fail']]
    if vac:
        raise NoAnswer('vacuous contracts (no witness of the precondition): %s' % vac)
    verus_ok = 0
    verus_funcs = []
    verus_secs = 0.0
    for v in vres:
        verus_secs += v['secs']
        if v['status'] == 'ok':
            obligations += v['verified']
            discharged += v['verified']
            verus_ok += v['verified']
            verus_funcs += v['functions']
        elif v['status'] == 'fail':
            # the invariants are written for the current loops: a failure is a
            # violation only with a concrete failing input
            obligations += v['verified'] + v['errors']
            discharged += v['verified']
            bad = [('Verus: ' + e, '') for e in v['messages'][:5]]
            w = {'fail': None}
            if v['twin'] in names:
                with cf.ThreadPoolExecutor(8) as ex:
                    ws = list(ex.map(lambda k: native_run(nb, pid, v['twin'], 10**9, SEED * 1000 + k, 20000, pool, 'v%d' % k), range(8)))
                w = next((x for x in ws if x['fail']), w)
            if w['fail']:
                viol.append((v['twin'], bad, w))
            else:
                undet.append((v['name'], bad))
        else:
            undet.append((v['name'], [(v['why'], '')]))
    exit_code = 0
    reported = []
    for n, bad, r in viol:
        k = next((t for h, t in kf if h == n), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k), flush=True)
            continue
        log('FAILED obligation %s: %s' % (n, bad[:3]))
        found = True
        if r['fail']:
            data = {'property': pid, 'contract': n, 'failed_obligations': bad, 'how': 'native', 'seed': r['seed'],
                    'case': r['fail'][0], 'message': r['fail'][1], 'features': feats,
                    'inputs': native_inputs(nb, pid, n, r['seed'], r['fail'][0], pool)}
        elif len(reported) < 2 and left() > 40:
            data, found = find_input(nb, pid, feats, n, bad, pool, min(25, left() / 3))
        else:
            data, found = {'property': pid, 'contract': n, 'failed_obligations': bad, 'how': None}, False
        p = replay_file(pid, n, data)
        reported.append((n, p, found))
    # one line per property, preferring a violation with a failing input
    if reported:
        exit_code = 1
        reported.sort(key=lambda x: not x[2])
        for n, p, found in reported:
            print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if found else ' no-failing-input-found'), flush=True)
            if found:
                break
    ev['violations'] = len(reported)
    ev['coverage'] = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': cmd or 'verus', 'trusted_base': P.get('trusted', []) + ['Kani 0.68.0 + CBMC 6.11.0 + z3 4.8.12 (cadical on retry)'] + (['Verus 0.2026.09.13 + its z3'] if vres else []),
        'functions_under_contract': P['functions'],
        'contracts': {n: ({'ok': 'discharged', 'fail': 'FAILED', 'undet': 'undetermined'}[verdict[n][0]] if n in verdict else 'closed-term evaluation') + (' (bounded: %s)' % bounded[n] if n in bounded else '') for n in names},
        'verifier_checks': checks_total, 'verifier_checks_discharged': checks_ok,
        'bounded_stand_ins': bounded_n, 'undetermined': [[n, w[0][0]] for n, w in undet],
        'verus': [{k: v[k] for k in ('name', 'status', 'verified', 'functions', 'dropped', 'secs')} for v in vres],
        'solver_s': round(solver_s, 2), 'verus_s': round(verus_secs, 2),
        'native_witness_runs': sum(r['cases'] for r in nat.values()),
        'samples': samples, 'notes': notes,
        'explanation': P.get('explanation', ''),
    }
    ev['wall_s'] = round(time.time() - T0, 1)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    try:
        os.remove(pool)
    except OSError:
        pass
    log('%s: %d/%d obligations discharged, %d bounded, %d undetermined, %d violations' % (pid, discharged, obligations, bounded_n, len(undet), len(reported)))
    for n, w in undet:
        log('  undetermined %s: %s (the native run of the contract stands in, bounded)' % (n, w[:2]))
    return exit_code


def replay(path):
    d = json.load(open(path))
    pid, h = d['property'], d['contract']
    global HOOK
    HOOK = bool(PROPS[pid].get('hook'))
    print(json.dumps({k: d[k] for k in d if k not in ('inputs', 'vals')}, indent=1)[:4000])
    if not d.get('how'):
        return 1
    os.makedirs(WORK, exist_ok=True)
    pool = os.path.join(WORK, 'pool-%d' % os.getpid())
    mine_pool(pool)
    nb = native_bin(d['features'])
    if d['how'] == 'native':
        rc, out = run([nb, 'case', pid, h, '--seed', str(d['seed']), '--case', str(d['case']), '--pool', pool], 60)
    else:
        vf = os.path.join(WORK, 'vals-replay')
        open(vf, 'w').write(d['vals'])
        rc, out = run([nb, 'vals', pid, h, '--vals', vf], 60)
    print(out)
    return 1 if rc else 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    try:
        sys.exit(decide(sys.argv[1]))
    except NoAnswer as e:
        print('NO ANSWER:', e, flush=True)
        sys.exit(2)
