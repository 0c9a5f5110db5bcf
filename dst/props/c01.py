'''C01: a crash never loses acknowledged data while the local cache survives.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C01'
RUNS = {'quick': 240, 'thorough': 6000}
RULE = ('One run: mkfs.s3ql, a mount with a generated concurrent workload, storage faults and up '
        'to four crash instants (numbered simulator events, or n source lines after one); each '
        'crash state goes through fsck.s3ql (possibly crashed itself) and a mount that reads '
        'everything back; the history is compared with the reference model.')

KINDS = [('fwrite', 30), ('applied', 30), ('req', 40), ('thread', 40), ('fuse-', 60), ('unlink', 12),
         ('op-', 30), ('fopen', 12), ('apply', 30), ('rename', 6), ('ftrunc', 4), ('flushed', 4)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=3, dirs=['d0', 'd1', 'd0/s0'])
    n = rng.choice((6, 12, 20, 40))
    plan = basic(rng, g, n)
    if plan['clients'] and rng.random() < 0.4:
        # changes of attributes and sizes, a synchronisation, and a crash soon afterwards
        ops = plan['clients'][0]
        k = rng.choice((1, 2, 3))
        for _ in range(k):
            at = rng.randrange(len(ops) + 1)
            ops[at:at] = g.ops([('setattr', 4), ('truncate', 2), ('write', 1), ('setxattr', 0.5), ('stat', 2)],
                               rng.choice((2, 4, 7))) + \
                [{'op': 'flush'}] * (rng.random() < 0.7) + g.ops([('fsync', 1)], 1)
        plan['crash'].append(['flushed', rng.randint(1, k), rng.choice((0, 0, 1, 5, 50))])
    return plan


def basic(rng, g, n):
    return {
        'cfg': G.cfg(rng),
        'setup': G.setup_ops(rng, g, 0.7, 0.4),
        'clients': G.clients(rng, g, rng.choice((G.MIXED, G.DATA, G.MIXED, G.NS)), length=n),
        'presetup': rng.random() < 0.4,
        'faults': G.temp_faults(rng),
        'crash': G.crash_points(rng, rng.choice((1, 2, 3)), KINDS),
        'nested': G.crash_points(rng, 1, [('applied', 8), ('req', 10), ('unlink', 6), ('rename', 4),
                                          ('fsync', 6)], 300)
        if rng.random() < 0.4 else [],
        'after': g.ops(G.MIXED, 5) if rng.random() < 0.3 else [],
    }


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        clients = plan['clients']
        if plan['presetup']:
            r = run.mount([plan['setup']], lat=[0.0], salt='setup')
            scen.expect_rc(r, 'mount')
        else:
            clients = [plan['setup'] + (clients[0] if clients else [])] + clients[1:]
        base = run.save()
        res = run.mount(clients, faults=plan['faults'], crash=plan['crash'], salt='work')
        scen.expect_rc(res, 'mount')
        for snap in res.snaps:
            crash_check(run, plan, snap)
        return run.stats
    finally:
        run.close()


def crash_check(run, plan, snap, depth=0):
    run.enter_snapshot(snap)
    if run.model.inodes is None:
        return
    dump, snaps = scen.recover_here(run, nested=plan['nested'] if depth == 0 else (),
                                    salt='r%d' % snap['id'])
    try:
        tree.compare_crash(run.model, dump)
    except Violation as v:
        v.info['crash'] = 'event %d + %d lines; before it: %s' % (
            snap['ev'], snap['lines'], snap['after'])
        raise
    if plan['after'] and depth == 0:
        run.model = tree.model_from_dump(dump)
        r = run.mount([plan['after']], lat=[0.0], salt='a%d' % snap['id'], dump=True)
        scen.expect_rc(r, 'mount')
        tree.compare_exact(run.model, r.dump, 'after-crash')
    for s in snaps:
        crash_check(run, plan, s, depth + 1)
