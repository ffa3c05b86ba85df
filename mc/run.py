"""Command line: decide one property; write evidence; print violations.

  python -m mc.run C01 quick|thorough [--only SUBSTR] [-v]
  python -m mc.run replay FILE
"""
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
FINDINGS = os.path.join(ROOT, 'known_findings.json')
WALL = {'quick': 780.0, 'thorough': 3000.0}
PER_SCEN = {'quick': 60.0, 'thorough': 600.0}


def load_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        d = json.load(f)
    return [x for x in d['known'] if x['property'] == prop]


def run_scenario(sc, libs, tier, seed, limit):
    from . import explore, loader
    lim = sc.time_limit or PER_SCEN[tier]
    lim = min(lim, limit)
    ex = explore.Explorer(sc, libs, seed=seed, time_limit=lim,
                          max_paths=sc.max_paths or (3000 if tier == 'quick' else 40000),
                          branch_timeout=1.5 if tier == 'quick' else 6.0,
                          claim_timeout=5.0 if tier == 'quick' else 40.0)
    t0 = time.time()
    err = None

    def on_alarm(sig, frm):
        ex.deadline = 0
        raise explore.Budget()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, lim + 10)
    try:
        ex.run()
    except explore.Budget:
        err = 'time limit'
    except Exception:
        err = traceback.format_exc()[-1500:]
    except BaseException as e:
        err = 'engine: %r' % e
    signal.setitimer(signal.ITIMER_REAL, 0)
    return {'name': sc.name, 'stats': ex.stats.d, 'violations': ex.violations, 'known': ex.known,
            'unsupported': ex.unsupported, 'notes': sorted(ex.notes), 'samples': ex.samples,
            'unconfirmed': ex.unconfirmed, 'mismatches': ex.mismatches, 'unknown_labels': ex.unknown_labels,
            'err': err, 'wall': time.time() - t0, 'funcs': sorted(loader.FUNCS)}


def child(sc, libs, tier, seed, limit, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        random.seed(seed)
        try:
            out = run_scenario(sc, libs, tier, seed, limit)
        except MemoryError:
            out = {'name': sc.name, 'err': 'out of memory'}
        data = pickle.dumps(out)
        with os.fdopen(wfd, 'wb') as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


def run_all(scs, libs, tier, seed, jobs, wall, verbose):
    t_end = time.time() + wall
    todo = sorted(scs, key=lambda s: -s.weight)
    live = {}
    done = []
    while todo or live:
        while todo and len(live) < jobs and time.time() < t_end - 5:
            sc = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(sc, libs, tier, seed, max(5.0, t_end - time.time() - 15), w)
            os.close(w)
            hard = min(time.time() + (sc.time_limit or PER_SCEN[tier]) * 1.3 + 40, t_end)
            live[r] = [pid, sc, hard, b'']
        if todo and not live and time.time() >= t_end - 5:
            for sc in todo:
                done.append({'name': sc.name, 'err': 'not started: wall budget'})
            break
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][3] += b
                continue
            pid, sc, hard, data = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out = pickle.loads(data)
            except Exception:
                out = {'name': sc.name, 'err': 'worker died'}
            done.append(out)
            if verbose:
                st = out.get('stats', {})
                print('  %-58s %6.1fs paths=%s q=%s unk=%s unconf=%s viol=%d%s' % (
                    sc.name, out.get('wall', -1), st.get('paths'), st.get('queries'),
                    st.get('claims_unknown'), st.get('unconfirmed'), len(out.get('violations', [])),
                    (' ERR ' + out['err'][-300:]) if out.get('err') else ''))
                if verbose > 1 or out.get('violations'):
                    for v in out.get('violations', [])[:3]:
                        print('      VIOL', json.dumps(v, default=str)[:600])
                for k in ('unsupported', 'unconfirmed', 'mismatches', 'unknown_labels'):
                    if out.get(k):
                        print('      %s: %s' % (k, str(out[k])[:500]))
                if verbose > 1 and out.get('notes'):
                    print('      notes', out['notes'][:6])
                sys.stdout.flush()
        now = time.time()
        for fd in list(live):
            if now > live[fd][2]:
                pid, sc, hard, data = live.pop(fd)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                done.append({'name': sc.name, 'err': 'killed at time limit'})
                if verbose:
                    print('  %-58s KILLED' % sc.name)
    return done


def main(argv):
    if argv and argv[0] == 'replay':
        return replay_file(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = argv.count('-v') + 2 * argv.count('-vv')
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    t0 = time.time()
    import faulthandler
    faulthandler.enable()
    from . import loader
    loader.start_function_trace()
    libs = loader.Libs()
    import sklearn.preprocessing  # noqa: F401  loaded once, before the workers are forked
    mod = importlib.import_module('mc.checks.%s' % prop.lower())
    scs = [s for s in mod.scenarios(tier)]
    names = [s.name for s in scs]
    assert len(names) == len(set(names)), 'duplicate scenario names: %s' % [n for n in names if names.count(n) > 1]
    findings = load_findings(prop)
    for s in scs:
        s.known = {f['label'] for f in findings if f['scenario'] == s.name}
    if only:
        scs = [s for s in scs if only in s.name]
    res = run_all(scs, libs, tier, seed, jobs, float(os.environ.get('VERIF_WALL', WALL[tier])), verbose)
    # ---- aggregate
    tot = {}
    funcs = set()
    viol, known, samples, inconc = [], [], [], []
    unsupported = {}
    notes = set()
    for r in res:
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(r.get('funcs', ()))
        viol += r.get('violations', [])
        known += r.get('known', [])
        for s in r.get('samples', [])[:1]:
            if len(samples) < 12:
                samples.append(dict(s, scenario=r['name']))
        for k, v in r.get('unsupported', {}).items():
            unsupported[k] = unsupported.get(k, 0) + v
        notes |= set(r.get('notes', ()))
        st = r.get('stats', {})
        if r.get('err') or any(st.get(k) for k in ('unsupported', 'unconfirmed', 'truncated', 'replay_mismatch')):
            inconc.append({'scenario': r['name'], 'error': (r.get('err') or '')[-300:],
                           **{k: st.get(k, 0) for k in ('unsupported', 'unconfirmed', 'truncated', 'unwitnessed_paths', 'replay_mismatch')},
                           'undecided_claims': r.get('unknown_labels', {}), 'why': list(r.get('unsupported', {}))[:3],
                           'mismatches': r.get('mismatches', [])[:2]})
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    # ---- report
    seen = set()
    n = 0
    for v in viol:
        key = (v['scenario'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        n += 1
        path = os.path.join(EVID, 'replays', '%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1, default=str)
        print('violated: %s / %s: %s (%s)' % (v['scenario'], v['label'], str(v['info'])[:160], v['how']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    hit = {(k['scenario'], k['label']) for k in known}
    for f in findings:
        if (f['scenario'], f['label']) in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0),
              'traces_validated_against_impl': tot.get('replays', 0), 'samples': samples,
              'scenarios': len(res), 'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs),
              'bounds': getattr(mod, 'BOUNDS', ''), 'queries': tot.get('queries', 0), 'unsat': tot.get('unsat', 0),
              'sat': tot.get('sat', 0), 'unknown': tot.get('unknown', 0),
              'solver_time_s': round(tot.get('solver_s', 0.0), 2), 'claims': tot.get('claims', 0),
              'claims_closed_by_normal_form': tot.get('claims_normal_form', 0),
              'normal_form_equalities_rechecked_by_solver': tot.get('normal_confirmed', 0),
              'claims_undecided': tot.get('claims_unknown', 0),
              'counterexamples_not_reproduced': tot.get('unconfirmed', 0),
              'paths_without_witness': tot.get('unwitnessed_paths', 0), 'paths_unsupported': tot.get('unsupported', 0),
              'paths_truncated': tot.get('truncated', 0), 'infeasible_paths': tot.get('infeasible', 0),
              'replay_mismatches': tot.get('replay_mismatch', 0), 'rounding_only': tot.get('rounding_only', 0),
              'inconclusive': inconc[:40], 'unsupported': unsupported, 'opaque_models': sorted(notes)[:40],
              'known_findings_hit': sorted('%s: %s' % k for k in hit)},
          'assumptions': COMMON + list(getattr(mod, 'ASSUMPTIONS', ())), 'wall_s': round(wall, 2), 'violations': n}
    if not only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d scenarios, %d paths, %d claims (%d by normal form), %d queries (%.1fs solver), %d replays, '
          'inconclusive=%d, violations=%d, %.1fs' % (
              prop, tier, len(res), tot.get('paths', 0), tot.get('claims', 0), tot.get('claims_normal_form', 0),
              tot.get('queries', 0), tot.get('solver_s', 0.0), tot.get('replays', 0), len(inconc), n, wall))
    for i in inconc[:8]:
        print('inconclusive: %s' % json.dumps(i)[:400])
    return 1 if n else 0


COMMON = [
    'floating point is modelled by exact real arithmetic with NaN and infinities; rounding, overflow and underflow '
    'are outside the model (every path is replayed on the real code with a tolerance)',
    'numpy primitives behave as documented (their models are compared with numpy itself on every replayed path)',
]


def replay_file(path):
    from . import loader, explore
    with open(path) as f:
        rec = json.load(f)
    libs = loader.Libs()
    mod = importlib.import_module('mc.checks.%s' % rec['property'].lower())
    for tier in ('quick', 'thorough'):
        for sc in mod.scenarios(tier):
            if sc.name == rec['scenario']:
                ex = explore.Explorer(sc, libs, seed=rec.get('seed', 1))
                from fractions import Fraction
                named = {k: (Fraction(v) if isinstance(v, str) else v) for k, v in rec['inputs'].items()}
                r = ex.replay(named)
                print('inputs:', rec['inputs'])
                if r is None:
                    print('assumption not met')
                    return 2
                for lab, info, _ in r.failed:
                    print('FAILED', lab, info)
                return 1 if r.failed else 0
    print('scenario not found')
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
