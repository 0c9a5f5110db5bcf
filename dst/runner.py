'''Seeded search over simulated runs: parallel execution, minimisation, replay files, evidence.'''

import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import time
import traceback

from . import boot, core, world
from .core import Violation, stream

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.json')
JOBS = int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 1)


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def known_findings(prop):
    try:
        with open(KNOWN) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', ()) if k['property'] == prop]


def match_known(known, viol):
    text = viol['msg'] + '\n' + json.dumps(viol.get('info', {}))
    for k in known:
        if k['cls'] == viol['cls'] and re.search(k['match'], text, re.S):
            return k
    return None


def execute(mod, plan):
    '''Run one plan. Returns dict(status=ok|violation|error, ...)'''
    t0 = core.real_monotonic()
    holder = {}
    try:
        res = mod.execute(plan, holder)
        out = {'status': 'ok', 'stats': res}
    except Violation as v:
        out = {'status': 'violation', 'viol': v.as_dict(), 'stats': holder.get('stats')}
        if 'logs' in holder:
            out['logs'] = holder['logs']
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, KeyboardInterrupt):
            raise
        out = {'status': 'error', 'error': traceback.format_exc()[-6000:],
               'stats': holder.get('stats')}
    out['wall'] = core.real_monotonic() - t0
    return out


_mod = None


def _work(job):
    idx, plan = job
    return idx, execute(_mod, plan)


def _work_gen(job):
    idx, seed, tier = job
    try:
        plan = _mod.gen(stream(seed, _mod.PROP, idx), idx, tier)
        plan['seed'] = '%s.%s.%d' % (_mod.PROP, seed, idx)
    except Exception:  # noqa: BLE001
        return idx, None, {'status': 'error', 'error': 'gen: ' + traceback.format_exc(), 'wall': 0,
                           'stats': None}
    return idx, plan, execute(_mod, plan)


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def pool():
    ctx = multiprocessing.get_context('fork')
    return ctx.Pool(JOBS, initializer=_init_worker)


# ---------------------------------------------------------------------- minimisation


def lists_in(plan, path=()):
    '''Paths of all lists that may be shortened'''
    out = []
    if isinstance(plan, dict):
        for k in sorted(plan):
            if k in ('cfg', 'fixed'):
                continue
            out += lists_in(plan[k], path + (k,))
    elif isinstance(plan, list):
        if plan and isinstance(plan[0], (dict, list)):
            out.append(path)
            for i, x in enumerate(plan):
                if isinstance(x, (dict, list)) and not (
                        isinstance(x, list) and x and not isinstance(x[0], (dict, list))):
                    out += lists_in(x, path + (i,))
    return out


def at(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def without(plan, path, lo, hi):
    new = copy.deepcopy(plan)
    lst = at(new, path)
    if path and path[-1] == 'clients':
        # keep client numbers (they decide the schedule) but empty the client
        for i in range(lo, hi):
            lst[i] = []
    else:
        del lst[lo:hi]
    return new


def size_of(plan):
    return len(json.dumps(plan))


def minimise(mod, plan, viol, budget, p):
    '''Shrink the plan while it still fails with the same class of violation'''
    t0 = time.monotonic()
    tried = 0

    def fails(res):
        return res['status'] == 'violation' and res['viol']['cls'] == viol['cls']

    best = plan

    def attempt(cands):
        '''Return the first candidate that still fails'''
        nonlocal tried
        for i in range(0, len(cands), JOBS):
            if time.monotonic() - t0 > budget:
                return None
            chunk = cands[i : i + JOBS]
            tried += len(chunk)
            for idx, res in sorted(p.map(_work, list(enumerate(chunk)), chunksize=1)):
                if fails(res):
                    return chunk[idx]
        return None

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        # property specific simplifications first
        for _ in range(8):
            cands = list(mod.simplify(best)) if hasattr(mod, 'simplify') else []
            cands += list(generic_simplify(best))
            got = attempt(cands)
            if got is None:
                break
            best = got
            changed = True
        for path in sorted(lists_in(best), key=lambda q: -len(at(best, q))):
            try:
                n = len(at(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            step = n
            while step >= 1 and time.monotonic() - t0 < budget:
                try:
                    n = len(at(best, path))
                except (KeyError, IndexError, TypeError):
                    break
                cands = []
                for lo in range(0, n, step):
                    if path and path[-1] == 'clients' and not any(
                            at(best, path)[lo : lo + step]):
                        continue
                    cands.append(without(best, path, lo, min(n, lo + step)))
                got = attempt(cands)
                if got is not None:
                    best = got
                    changed = True
                    step = min(step, max(1, len(at(best, path))))
                    if path[-1] == 'clients':
                        step //= 2
                else:
                    step //= 2
    return best, tried


def generic_simplify(plan):
    cfg = plan.get('cfg', {})
    for k, v in (('policy', 'fifo'), ('stall', 0.0), ('thread_delay', [0.0]), ('lat', [0.0]),
                 ('think', [0.0]), ('forget_delay', [0.0]), ('plain', True), ('writeback', False),
                 ('keep_cache', False)):
        if k in cfg and cfg[k] != v:
            new = copy.deepcopy(plan)
            new['cfg'][k] = v
            yield new


# ---------------------------------------------------------------------- main


def merge(total, st):
    if not st:
        return
    for k in ('incs', 'events', 'simtime', 'snaps', 'ops', 'steps', 'evals'):
        if k in st:
            total[k] = total.get(k, 0) + st[k]
    for k in ('fired', 'cmds', 'probes'):
        d = total.setdefault(k, {})
        for kk, v in st.get(k, {}).items():
            d[kk] = d.get(kk, 0) + v
    total.setdefault('digests', set()).update(st.get('digests', ()))
    total.setdefault('states', set()).update(st.get('states', ()))


def write_replay(prop, plan, viol, extra):
    d = os.environ.get('DST_REPLAYS', os.path.join(VERIF, 'replays'))
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(plan, sort_keys=True)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'violation': viol, 'plan': plan, **extra}, fh, indent=1)
    return path


def replay_cmd(path):
    return [sys.executable, os.path.join(VERIF, 'replay.py'), path]


def main(prop):
    global _mod
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('dst: property=%s tier=%s seed=%d jobs=%d' % (prop, tier, seed, JOBS))
    src = boot.setup()
    world.init(src)
    mod = _mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    runs = int(os.environ.get('DST_RUNS', '0')) or mod.RUNS[tier]
    only = [int(x) for x in os.environ.get('DST_ONLY', '').split(',') if x]
    cap = float(os.environ.get('DST_CAP', '0')) or {'quick': 240.0, 'thorough': 3300.0}[tier]
    known = known_findings(prop)
    total = {}
    viols = []
    errors = []
    done = 0
    hits = {}
    samples = []
    walls = []
    p = pool()
    try:
        it = p.imap_unordered(_work_gen, ((i, seed, tier) for i in only or range(runs)), chunksize=1)
        for idx, plan, res in it:
            done += 1
            merge(total, res.get('stats'))
            walls.append(res['wall'])
            if len(samples) < 2 and plan is not None and res['status'] == 'ok':
                samples.append(mod.describe(plan) if hasattr(mod, 'describe') else brief(plan))
            if res['status'] == 'violation':
                k = match_known(known, res['viol'])
                if k is not None:
                    hits[k['id']] = hits.get(k['id'], 0) + 1
                else:
                    viols.append((idx, plan, res))
                    if len(viols) >= 3 and not os.environ.get('DST_ALL'):
                        break
            elif res['status'] == 'error':
                errors.append((idx, plan, res['error']))
                if len(errors) >= 10:
                    break
            if time.monotonic() - t0 > cap:
                break
    finally:
        p.terminate()
        p.join()
    search_s = time.monotonic() - t0
    rc = 0
    if os.environ.get('DST_ALL'):
        for idx, plan, res in sorted(viols, key=lambda v: v[0]):
            print('  #%d %s: %s' % (idx, res['viol']['cls'], res['viol']['msg'][:300]))
    if viols:
        viols.sort(key=lambda v: size_of(v[1]))
        idx, plan, res = viols[0]
        viol = res['viol']
        print('dst: run %d violates %s: [%s] %s' % (idx, prop, viol['cls'], viol['msg'][:2000]))
        small, tried = plan, 0
        budget = float(os.environ.get('DST_SHRINK', '100'))
        if budget > 0:
            p = pool()
            try:
                if hasattr(mod, 'concretise'):
                    plan = mod.concretise(plan, res)
                small, tried = minimise(mod, plan, viol, budget, p)
            finally:
                p.terminate()
                p.join()
        again = execute(mod, small)
        if again['status'] != 'violation':
            small = viols[0][1]
            again = execute(mod, small)
        v2 = again.get('viol', viol)
        path = write_replay(prop, small, v2, {
            'found': {'seed': seed, 'run': idx, 'tier': tier}, 'shrink_attempts': tried,
            'size': [size_of(viols[0][1]), size_of(small)]})
        proc = subprocess.run(replay_cmd(path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        okay = proc.returncode == 1
        print('dst: minimised from %d to %d bytes in %d attempts; fresh-process replay %s'
              % (size_of(viols[0][1]), size_of(small), tried,
                 'reproduces it' if okay else 'DIFFERS'))
        print('dst: [%s] %s' % (v2['cls'], v2['msg'][:3000]))
        if v2.get('info'):
            for k, v in v2['info'].items():
                print('   %s: %s' % (k, str(v)[-2500:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif errors:
        print('dst: harness error in run %d:\n%s' % (errors[0][0], errors[0][2]))
        rc = 2
    else:
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = time.monotonic() - t0
    digests = total.pop('digests', set())
    states = total.pop('states', set())
    hours = max(search_s, 1e-9) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL
        if hasattr(mod, 'LEVEL') else 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(digests),
            'rule': getattr(mod, 'RULE', 'one simulated run per seed')
            + ' Distinct: different hash over the full event log (scheduling order of runnable '
            'tasks, file system requests and answers, storage requests, file writes) of an '
            'incarnation; incarnations that end before any event are not counted.',
            'samples': samples or ['no completed run'],
            'runs_per_hour': round(done / hours),
            'seeds_per_hour': round(done / hours),
            'incarnations': total.get('incs', 0),
            'commands_run': total.get('cmds', {}),
            'simulator_events': total.get('events', 0),
            'task_steps': total.get('steps', 0),
            'client_operations': total.get('ops', 0),
            'simulated_seconds': round(total.get('simtime', 0.0), 1),
            'crash_snapshots_recovered': total.get('snaps', 0),
            'faults_injected': total.get('fired', {}),
            'probes': total.get('probes', {}),
            'distinct_states': len(states),
            'known_findings_hit': hits,
            'real_components': getattr(mod, 'REAL', REAL_FS),
            'stub_components': getattr(mod, 'STUB', STUB_FS),
            'slowest_run_s': round(max(walls or [0]), 2),
            'jobs': JOBS,
            'harness_errors': len(errors),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', ASSUMPTIONS_FS),
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('dst: %d runs, %d incarnations, %d distinct event logs, %.0f simulated s, '
          '%d crash recoveries, faults %s, probes %s, %.1f s'
          % (done, total.get('incs', 0), len(digests), total.get('simtime', 0),
             total.get('snaps', 0), total.get('fired', {}), total.get('probes', {}), wall))
    sys.stdout.flush()
    return rc


def brief(plan):
    s = json.dumps(plan)
    return s if len(s) < 1500 else s[:1500] + '...'


REAL_FS = [
    's3ql.mount, s3ql.fs, s3ql.block_cache, s3ql.inode_cache, s3ql.database (SQLite via apsw and '
    'the sqlite3ext VFS), s3ql.fsck, s3ql.mkfs, s3ql.backends.comprenc, '
    's3ql.backends.common.retry, s3ql.common, s3ql.multi_lock, _linked_dict, trio',
]
STUB_FS = [
    'kernel VFS and FUSE transport (dst.kernel)', 'storage service and raw backend (dst.store)',
    'wall clock, monotonic clock and timers (trio MockClock)',
    'worker threads (run one at a time at scheduled moments)',
    'process death (snapshot of cache directory and storage service)',
]
ASSUMPTIONS_FS = [
    'SQLite statements are atomic and survive the death of the process (page cache kept)',
    'Python code between two await points of the mount process is atomic, as in the real program, '
    'except that crashes are also placed between two source lines of s3ql',
]


def replay(path):
    global _mod
    with open(path) as fh:
        rec = json.load(fh)
    prop = rec['property']
    src = boot.setup()
    world.init(src)
    mod = _mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    res = execute(mod, rec['plan'])
    if res['status'] == 'violation':
        v = res['viol']
        print('[%s] %s' % (v['cls'], v['msg']))
        for k, x in v.get('info', {}).items():
            print('   %s: %s' % (k, str(x)[-4000:]))
        same = v['cls'] == rec['violation']['cls'] and v['msg'] == rec['violation']['msg']
        print('same violation as recorded' if same else 'DIFFERENT from the recorded violation: %s'
              % rec['violation'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if same or os.environ.get('DST_LAX') else 3
    if res['status'] == 'error':
        print(res['error'])
        return 2
    print('no violation')
    return 0
