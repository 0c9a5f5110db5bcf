'''C27: umount.s3ql returns when, and only when, everything is stored and the mount process is gone.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C27'
RUNS = {'quick': 260, 'thorough': 8000}
RULE = ('One run: a mount with concurrent clients on slow and failing storage; the real umount.s3ql '
        'is run once or several times while files are in use and at the end; the file system is '
        'mounted on another machine at the instant at which the program has returned. In a quarter of '
        'the runs with --lazy: files that are open can be used on, and everything is stored when the '
        'mount process has ended.')
NOTE = ('Seeded search. The mount process, the process table, fuser(1) and umount(8) are simulated; '
        'umount.s3ql itself is real. Storage failures are temporary: when the mount process dies, '
        'umount.s3ql cannot know.')

WORK = [('write', 14), ('create', 5), ('truncate', 3), ('unlink', 3), ('rename', 2), ('open', 3),
        ('close', 4), ('flush', 0.5), ('sleep', 3), ('read', 2), ('fsync', 1), ('mkdir', 1)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=rng.choice(([], ['d0'])),
                blocks=rng.choice((2, 4)))
    n = rng.choice((5, 15, 30))
    clients = G.clients(rng, g, WORK, n=rng.choice((1, 2, 3)), length=n)
    reuse = rng.choice((None, None, 'other', 'zombie', 'gone', 'eperm'))
    um = {'op': 'umount', 'client': 0, 'reuse': reuse}
    lazy = rng.random() < 0.25
    if lazy:
        i = rng.randrange(len(clients[0]) + 1)
        clients[0][i:i] = [dict(um, lazy=True)]
        for c in clients:
            for op in c:
                if op['op'] in ('write', 'read', 'fsync') and 'path' in op and rng.random() < 0.5:
                    op['slot'] = rng.randrange(g.slots)
                    del op['path']
    elif rng.random() < 0.5:
        clients[0].insert(rng.randrange(len(clients[0]) + 1), dict(um))
    clients[0] = clients[0] + [{'op': 'close', 'slot': i} for i in range(g.slots)]
    for _ in range(rng.choice((1, 3))):
        clients[0].append(dict(um))
        clients[0].append({'op': 'sleep', 'secs': rng.choice((1.0, 30.0))})
    return {'cfg': G.cfg(rng, entries=rng.choice((2, 4, 8, 30)), delay=rng.choice((5, 60, 600))),
            'setup': G.setup_ops(rng, g, 0.8, 0.6), 'clients': clients,
            'faults': G.temp_faults(rng)}


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        clients = plan['clients']
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        res = scen.work(run, clients, 'work', faults=plan['faults'])
        if res.d['probes'].get('tool-umount'):
            run.stats['probes']['unmounted'] = run.stats['probes'].get('unmounted', 0) + 1
        run.machine = 'other'
        dump = scen.read_back(run, salt='read')
        tree.compare_exact(run.model, dump, 'content')
        st = scen.remote_params(run, 'params')
        if st[1] or st[2]:
            raise Violation('params', 'after umount.s3ql the superblock says %s' % (st,))
        scen.table_check(run)
        return run.stats
    finally:
        run.close()
