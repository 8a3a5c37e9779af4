"""Driver:  python -m pbt.run <PROPERTY> [--replay FILE] [--tier quick|thorough] [--shards N]

The parent starts shards (fresh processes, one hash seed each); every shard drives each generated
check of the property with Hypothesis from a seed derived from VERIF_SEED.  The first failing case
is shrunk, confirmed in a fresh process, written as a replay file and reported.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHRINK_S = {'quick': 40, 'thorough': 240}
WALL_S = {'quick': 330, 'thorough': 3000}     # safety net only: the budgets are case counts


def prepare():
    sys.path.append(os.path.join(HERE, '.deps'))
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.setrecursionlimit(20000)


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], 'big')


def load(pid):
    return importlib.import_module(f'pbt.props.{pid.lower()}')


# ------------------------------------------------------------------ one execution of one case
def execute(check, case):
    """-> (status, message, recorder); status in ok / ood / timeout / fail / error"""
    from . import core
    rec = core.Recorder()
    armed = [False]

    def on_alarm(*_):
        if armed[0]:
            raise core.CaseTimeout
    signal.signal(signal.SIGPROF, on_alarm)
    try:
        armed[0] = True
        signal.setitimer(signal.ITIMER_PROF, check.cpu, 1.0)
        try:
            check.run(case, rec)
            return 'ok', '', rec
        finally:
            armed[0] = False
            signal.setitimer(signal.ITIMER_PROF, 0)
    except core.CaseTimeout:
        return 'timeout', 'CPU budget', rec
    except core.OutOfDomain as e:
        return 'ood', str(e), rec
    except core.Violation as e:
        return 'fail', str(e)[:4000], rec
    except Exception as e:
        # raised by the code under test on a valid input: a violation; else the harness is wrong
        src = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(src) for f in tb):
            return 'fail', (f'unexpected {type(e).__name__}: {str(e)[:500]}\n'
                            + ''.join(traceback.format_list(tb)[-4:])), rec
        if isinstance(e, (OSError, MemoryError, ImportError)):
            return 'error', traceback.format_exc()[-4000:], rec
        # the oracle raises on no case of the unchanged tree: what it was given is malformed
        return 'fail', ('an answer of the code could not be examined (malformed): '
                        + traceback.format_exc()[-1500:]), rec


class Failing(Exception):
    pass


def worker(pid, tier, seed, shard, shards, out, wall):
    prepare()
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis
    import sympkf
    src = os.path.realpath(sympkf.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        print(f'sympkf is imported from {src}, not from {REPO}', file=sys.stderr)
        sys.exit(3)
    mod = load(pid)
    t_end = time.time() + wall
    fails = open(os.path.join(out, f'fail{shard}.jsonl'), 'a', buffering=1)
    hist = open(os.path.join(out, f'hist{shard}.jsonl'), 'a', buffering=1)
    errors = []
    stats = {}

    def run_one(check, case, known, st):
        key = json.dumps(case, sort_keys=True, separators=(',', ':'))
        if key in known:
            st['duplicates'] += 1
            if known[key]:
                raise Failing(known[key])
            return
        if time.time() > t_end:
            st['skipped_wall'] += 1
            return
        hist.write(json.dumps([check.name, case]) + '\n')
        st['evaluations'] += 1
        status, msg, rec = execute(check, case)
        known[key] = ''
        for l in rec.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if status == 'ok':
            st['decided'] += 1
            if rec.nontrivial:
                st['nt'].append(hashlib.sha256((check.name + key).encode()).hexdigest()[:16])
                if len(st['samples']) < 2:
                    st['samples'].append(case)
        elif status in ('ood', 'timeout'):
            st[status] += 1
            if status == 'timeout':
                st['timeouts'].append(case)
        elif status == 'error':
            errors.append({'check': check.name, 'case': case, 'error': msg})
            st['errors'] += 1
        else:
            known[key] = msg or 'violation'
            st['failures'] += 1
            fails.write(json.dumps({'check': check.name, 'case': case, 'message': msg,
                                    'size': len(key)}) + '\n')
            raise Failing(msg)

    for check in mod.CHECKS:
        st = stats[check.name] = {'evaluations': 0, 'decided': 0, 'nt': [], 'ood': 0,
                                  'timeout': 0, 'errors': 0, 'failures': 0, 'duplicates': 0,
                                  'skipped_wall': 0, 'labels': {}, 'samples': [], 'timeouts': []}
        t0 = time.process_time()
        known = {}
        # saved regression cases first, spread over the shards
        for i, case in enumerate(regressions(pid, check.name)):
            if i % shards == shard:
                try:
                    run_one(check, case, known, st)
                except Failing:
                    pass
        total = check.quick if tier == 'quick' else check.thorough
        n = total // shards + (1 if shard < total % shards else 0)
        if n:
            @hypothesis.seed(derive(seed, pid, check.name, shard))
            @settings(max_examples=n, deadline=None, database=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                      phases=[Phase.generate, Phase.shrink])
            @given(check.strategy())
            def prop(case):
                run_one(check, case, known, st)
            try:
                prop()
            except Failing:
                pass
            except hypothesis.errors.HypothesisException as e:
                errors.append({'check': check.name, 'case': None, 'error': repr(e)})
            except BaseException as e:          # exception groups of several failures
                if not st['failures']:
                    errors.append({'check': check.name, 'case': None,
                                   'error': ''.join(traceback.format_exception(e))[-3000:]})
        st['cpu_s'] = round(time.process_time() - t0, 1)
    with open(os.path.join(out, f'stat{shard}.tmp'), 'w') as f:
        json.dump({'stats': stats, 'errors': errors}, f)
    os.rename(os.path.join(out, f'stat{shard}.tmp'), os.path.join(out, f'stat{shard}.json'))


def regressions(pid, name):
    path = os.path.join(HERE, 'regress', f'{pid}.jsonl')
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                r = json.loads(line)
                if r['check'] == name:
                    yield r['case']


# ------------------------------------------------------------------ replay of one case
def replay_worker(path):
    prepare()
    r = json.load(open(path))
    import sympkf
    assert os.path.realpath(sympkf.__file__).startswith(os.path.realpath(REPO) + os.sep)
    mod = load(r['property'])
    checks = {c.name: c for c in mod.CHECKS}
    for name, case in r.get('history', []):
        execute(checks[name], case)
    status, msg, _ = execute(checks[r['check']], r['case'])
    print(json.dumps({'status': status, 'message': msg}))


def spawn(args, hashseed, **kw):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    return subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'pbt.run'] + args, cwd=HERE,
                            env=env, start_new_session=True, **kw)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def replay(path, hashseed, timeout=400):
    p = spawn(['--replay-worker', path], hashseed, stdout=subprocess.PIPE,
              stderr=subprocess.PIPE, text=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'timeout', ''
    try:
        r = json.loads(o.strip().splitlines()[-1])
        return r['status'], r['message']
    except (IndexError, ValueError):
        return 'error', (o + e)[-2000:]


def read_known(pid):
    """known-findings file: lines `finding: {json}` and `fixed: property=.. ..`"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                r = json.loads(line[len('finding: '):])
                if r['property'] == pid:
                    out.append(r)
    return out


def main(argv):
    if argv and argv[0] == '--worker':
        pid, tier, seed, shard, shards, out, wall = argv[1:]
        return worker(pid, tier, int(seed), int(shard), int(shards), out, float(wall))
    if argv and argv[0] == '--replay-worker':
        return replay_worker(argv[1])
    pid = argv[0]
    if '--replay' in argv:
        path = os.path.abspath(argv[argv.index('--replay') + 1])
        r = json.load(open(path))
        status, msg = replay(path, r.get('hashseed', 0))
        print(f"replay {path}: {status}\n{msg}")
        if status == 'fail':
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        return 0 if status in ('ok', 'ood') else 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    shards = int(argv[argv.index('--shards') + 1]) if '--shards' in argv else 8
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prepare()
    out = tempfile.mkdtemp(prefix=f'pbt-{pid}-')
    procs = []
    try:
        return campaign(pid, tier, seed, shards, out, procs, t0)
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                kill(p)
            log.close()
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        os.rmdir(out)


def read_fails(out, shards):
    r = []
    for s in range(shards):
        path = os.path.join(out, f'fail{s}.jsonl')
        if os.path.exists(path):
            for line in open(path):
                if line.endswith('\n'):
                    x = json.loads(line)
                    x['shard'] = s
                    r.append(x)
    return r


def campaign(pid, tier, seed, shards, out, procs, t0):
    wall = WALL_S[tier]
    hs = [derive(seed, 'hash', s) % 4294967295 for s in range(shards)]
    for s in range(shards):
        log = open(os.path.join(out, f'log{s}'), 'w')
        procs.append((spawn(['--worker', pid, tier, str(seed), str(s), str(shards), out, str(wall)],
                            hs[s], stdout=log, stderr=log), s, log))
    first_fail = None
    hard = t0 + wall + 150
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.2)
        now = time.time()
        if first_fail is None and any(os.path.exists(os.path.join(out, f'fail{s}.jsonl')) and
                                      os.path.getsize(os.path.join(out, f'fail{s}.jsonl'))
                                      for s in range(shards)):
            first_fail = now
        if first_fail is not None and now > first_fail + SHRINK_S[tier]:
            break
        if now > hard:
            break
    for p, _, _ in procs:
        if p.poll() is None:
            kill(p)
    fails = read_fails(out, shards)
    status, stats, harness = merge(pid, out, shards)
    known = read_known(pid)
    rc, violations = 0, 0
    # replay of the recorded findings
    for i, k in enumerate(known):
        path = os.path.join(out, f'known{i}.json')
        json.dump(dict(k), open(path, 'w'))
        st, msg = replay(path, k.get('hashseed', 0))
        if st == 'fail':
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    knownkeys = {json.dumps([k['check'], k['case']], sort_keys=True) for k in known}
    fails = [f for f in fails if json.dumps([f['check'], f['case']], sort_keys=True) not in knownkeys]
    if fails:
        rep = confirm(pid, fails, hs, out)
        if rep:
            violations = 1
            print(f'VIOLATION property={pid} replay={rep}')
            rc = 1
        else:
            print(f'{pid}: a failure did not reproduce in a fresh process:', fails[0]['message'],
                  json.dumps(fails[0]['case']), file=sys.stderr)
            rc = 2
    elif status:
        for s in status:
            print(f'{pid}: {s}', file=sys.stderr)
        rc = 2
    elif harness:
        for h in harness[:3]:
            print(f"{pid}: harness error in {h['check']}: {json.dumps(h['case'])}\n{h['error']}",
                  file=sys.stderr)
        rc = 2
    mod_evidence(pid, tier, seed, stats, time.time() - t0, violations)
    if rc == 0:
        ev = sum(c['evaluations'] for c in stats.values())
        nt = sum(c['nontrivial'] for c in stats.values())
        print(f'{pid}: held on {ev} cases ({nt} distinct non-trivial), {time.time() - t0:.0f} s')
    return rc


def merge(pid, out, shards):
    status, harness, total = [], [], {}
    for s in range(shards):
        path = os.path.join(out, f'stat{s}.json')
        if not os.path.exists(path):
            log = open(os.path.join(out, f'log{s}')).read()[-1500:]
            status.append(f'shard {s} ended early: {log}')
            continue
        r = json.load(open(path))
        harness += r['errors']
        for name, st in r['stats'].items():
            t = total.setdefault(name, None)
            if t is None:
                total[name] = st
                continue
            for k, v in st.items():
                if k == 'labels':
                    for l, c in v.items():
                        t['labels'][l] = t['labels'].get(l, 0) + c
                elif k in ('samples', 'timeouts'):
                    t[k] = (t[k] + v)[:3]
                elif k == 'nt':
                    t[k] += v
                else:
                    t[k] = round(t[k] + v, 1)
    for t in total.values():
        t['nontrivial'] = len(set(t.pop('nt')))
    return status, total, harness


def confirm(pid, fails, hs, out):
    byc = {}
    for f in fails:
        byc.setdefault(f['check'], []).append(f)
    cand = []
    for name, l in byc.items():
        l.sort(key=lambda f: f['size'])
        cand += l[:3] + l[-1:]
    cand.sort(key=lambda f: f['size'])
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    t_end = time.time() + 200

    def attempt(f, history=None):
        r = {'property': pid, 'check': f['check'], 'case': f['case'],
             'hashseed': hs[f['shard']], 'message': f['message']}
        if history is not None:
            r['history'] = history
        tag = hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replays', f'{pid}-{tag}.json')
        json.dump(r, open(path, 'w'), indent=1)
        st, msg = replay(path, r['hashseed'])
        if st == 'fail':
            print(f"{pid}/{f['check']}: {msg}\n   case: {json.dumps(f['case'])[:3000]}")
            return path
        os.unlink(path)
        return None
    for f in cand[:8]:
        if time.time() > t_end:
            break
        path = attempt(f)
        if path:
            return path
    # state carried from earlier cases of the same shard
    f = fails[0]
    history = []
    for line in open(os.path.join(out, f"hist{f['shard']}.jsonl")):
        if not line.endswith('\n'):
            break
        h = json.loads(line)
        if h == [f['check'], f['case']]:
            break
        history.append(h)
    return attempt(f, history)


def mod_evidence(pid, tier, seed, stats, wall, violations):
    mod = load(pid)
    samples = []
    for name, c in stats.items():
        for s in c.pop('samples', [])[:2]:
            samples.append({'check': name, 'case': s})
        c['timeouts'] = [json.dumps(x)[:600] for x in c.get('timeouts', [])][:2]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(c['evaluations'] for c in stats.values())),
            'distinct_nontrivial': int(sum(c['nontrivial'] for c in stats.values())),
            'rule': mod.RULE,
            'samples': samples[:8],
            'checks': stats,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1), 'violations': violations,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', f'{pid}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
