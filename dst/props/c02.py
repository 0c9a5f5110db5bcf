'''C02: reads return the data last written, whatever runs in the background.'''

from .. import gen as G
from .. import scen, tree

PROP = 'C02'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('One run: a mount with several clients that write, read, truncate, flush, drop and resize '
        'the cache over a tiny cache with slow and temporarily failing storage; every read, size '
        'and attribute is checked against the reference model as it is answered, the whole tree '
        'is read back at the end, and again after a remount.')
NOTE = ('Seeded search; each read is checked byte for byte against a model that admits exactly the '
        'last completed write or one concurrent with the read. Trusts dst/model.py, the simulated '
        'kernel (page cache off, inode locks as in the Linux VFS) and storage service.')

HEAVY = [('write', 14), ('read', 12), ('create', 3), ('truncate', 4), ('open', 3), ('close', 2),
         ('fsync', 1), ('unlink', 1), ('rename', 0.5), ('link', 0.5), ('stat', 2), ('flush', 1),
         ('drop', 1.5), ('cachesize', 0.7), ('sleep', 2.5), ('prune', 0.5), ('upload_meta', 0.5)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((1, 2, 3)), dirs=rng.choice(([], ['d0'])),
                tags=rng.choice((2, 4)), blocks=rng.choice((2, 4, 6)))
    c = G.cfg(rng, entries=rng.choice((1, 2, 3, 4, 8)), cachesize=rng.choice((1, 2, 3, 6, 16)),
              delay=rng.choice((0, 1, 5, 30)), backup=rng.choice((2, 10, 60, 3600)))
    n = rng.choice((20, 40, 80))
    return {
        'cfg': c,
        'setup': G.setup_ops(rng, g, 0.9, 0.7),
        'clients': G.clients(rng, g, rng.choice((HEAVY, HEAVY, G.DATA)),
                             n=rng.choice((2, 3, 4, 6)), length=n),
        'second': [g.ops(HEAVY, rng.choice((4, 10))) for _ in range(rng.choice((1, 2, 3)))]
        if rng.random() < 0.6 else None,
        'newhost': rng.random() < 0.4,
        'faults': G.temp_faults(rng),
    }


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        res = scen.work(run, plan['clients'], 'work', faults=plan['faults'], dump=True)
        tree.compare_exact(run.model, res.dump, 'read-back')
        if plan['newhost']:
            run.machine = 'm1'
        res = scen.work(run, plan['second'] or [], 'second', faults=plan['faults'], dump=True)
        tree.compare_exact(run.model, res.dump, 'read-back')
        return run.stats
    finally:
        run.close()
