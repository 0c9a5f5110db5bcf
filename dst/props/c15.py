'''C15: a failed upload never loses data or poisons deduplication.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C15'
RUNS = {'quick': 300, 'thorough': 9000}
RULE = ('One run: clients write few distinct contents (so that blocks deduplicate against uploads in '
        'flight) until a storage request fails for good, before or after it took effect; the mount '
        'process is also killed at arbitrary points. Whatever is left must be refused by mount until '
        'fsck.s3ql (which may itself meet a permanent failure or a kill) has run, and then every '
        'completed operation reads back, tables and stored objects agree and s3ql_verify --data is '
        'content.')
NOTE = ('Seeded search over the placement of the permanent failure; a failure of an upload ends the '
        'mount process in this version, so that every history ends in recovery by fsck.s3ql.')

OPS = [('write', 16), ('create', 4), ('truncate', 2.5), ('read', 3), ('open', 2), ('close', 1.5),
       ('unlink', 2), ('rename', 1), ('link', 0.5), ('fsync', 0.5), ('flush', 1), ('drop', 1.2),
       ('sleep', 3), ('upload_meta', 0.5), ('setxattr', 0.3), ('mkdir', 0.3)]


def fail(rng, small=False):
    x = rng.random()
    if x < 0.75:
        kind, prefix = 'put', 's3ql_data_'
        nth = 1 + int(25 ** rng.random())
    elif x < 0.85:
        kind, prefix, nth = 'put', 's3ql_metadata', 1 + int(10 ** rng.random())
    elif x < 0.9:
        kind, prefix, nth = 'put', 's3ql_params', rng.randrange(1, 7)
    elif x < 0.95:
        kind, prefix, nth = 'delete', 's3ql_', 1 + int(10 ** rng.random())
    else:
        kind, prefix, nth = 'get', 's3ql_data_', 1 + int(10 ** rng.random())
    if small:
        nth = rng.choice((1, 1, 2, 3))
    return {'kind': kind, 'prefix': prefix, 'nth': nth, 'times': rng.choice((1, 1, 2, 100)),
            'fault': {'kind': rng.choice(('perm', 'perm', 'permlost'))}}


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 4)), dirs=rng.choice(([], ['d0'])),
                tags=rng.choice((1, 2, 3)), blocks=rng.choice((2, 4)))
    c = G.cfg(rng, delay=rng.choice((0, 1, 5, 20)), conns=rng.choice((1, 2, 4, 6)),
              lat=rng.choice(([0.0, 0.01, 0.2], [0.05, 0.5], [0.01, 3.0], [0.0, 20.0])))
    return {
        'cfg': c,
        'setup': G.setup_ops(rng, g, 0.7, 0.6),
        'clients': G.clients(rng, g, OPS, n=rng.choice((2, 3, 4)), length=rng.choice((15, 30, 60))),
        'faults': {'rules': [fail(rng)]},
        'crash': G.crash_points(rng, rng.choice((0, 1, 2)), [('req', 40), ('applied', 30)]),
        'ffaults': [{'rules': [fail(rng, True)]} for _ in range(rng.choice((0, 0, 1, 2)))],
        'nested': G.crash_points(rng, 1, [('applied', 8), ('req', 10)], 300)
        if rng.random() < 0.3 else [],
        'after': g.ops(OPS, 8) if rng.random() < 0.4 else [],
        'machine_lost': rng.random() < 0.1,
    }


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        r = run.mount([plan['setup']], lat=[0.0], salt='setup')
        scen.expect_rc(r, 'mount')
        res = run.mount(plan['clients'], faults=plan['faults'], crash=plan['crash'], salt='work',
                        allow_exc=True, died=True)
        failed = bool(res.fault_log)
        probe = run.stats['probes']
        probe['failed'] = probe.get('failed', 0) + failed
        if res.rc == 0:
            # not reached: an ordinary history
            if failed and any(f[1]['kind'].startswith('perm') and f[2] == 'put'
                              for f in res.fault_log):
                raise Violation('swallowed', 'an upload failed for good, yet mount.s3ql ended as if '
                                'nothing had happened')
            scen.table_check(run)
            scen.verify_data(run, 'v')
        else:
            if not failed:
                raise Violation('crash', 'mount ended with an unhandled %s' % res.exc_type,
                                traceback=(res.exc or res.err)[-3000:])
            if any(f[2] == 'put' and f[3].startswith('s3ql_data_') for f in res.fault_log):
                w = run.save()
                r = run.mount([], salt='refuse', lat=[0.0], allow_exc=True)
                if r.rc == 0:
                    raise Violation('no-fsck', 'mount.s3ql accepts a file system whose last upload '
                                    'failed')
                run.load(w)
            recover(run, plan, 'e')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            recover(run, plan, 's%d' % snap['id'], snap)
        return run.stats
    finally:
        run.close()


def recover(run, plan, salt, snap=None):
    snaps = []
    try:
        for i, f in enumerate(plan['ffaults']):
            r = run.fsck(salt='%sx%d' % (salt, i), faults=f, allow_exc=True)
            if r.rc not in scen.FSCK_OK and not r.fault_log:
                raise Violation('exit-status', 'fsck.s3ql after a failed upload: exit status %s'
                                % r.rc, stderr=(r.exc or r.err)[-3000:])
        dump, snaps = scen.recover_here(run, nested=plan['nested'], salt=salt)
        tree.compare_crash(run.model, dump)
        scen.verify_data(run, salt + 'v')
    except Violation as v:
        if snap:
            v.info['crash'] = 'event %d + %d lines; before it: %s' % (
                snap['ev'], snap['lines'], snap['after'])
        raise
    if plan['after']:
        run.model = tree.model_from_dump(dump)
        r = run.mount([plan['after']], lat=[0.0], salt=salt + 'a', dump=True)
        scen.expect_rc(r, 'mount')
        tree.compare_exact(run.model, r.dump, 'after-failure')
        scen.table_check(run)
    if plan['nested']:
        for s in snaps:
            run.enter_snapshot(s)
            dump, _ = scen.recover_here(run, salt='n%d' % s['id'])
            tree.compare_crash(run.model, dump)
