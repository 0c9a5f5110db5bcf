'''C11: namespace operations behave like a POSIX file system.'''

from .. import gen as G
from .. import scen, tree

PROP = 'C11'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('One run: a mount with several clients performing namespace, attribute and directory '
        'operations under kernel locking rules, with dentry pruning and delayed FORGETs; every '
        'answer is checked against the reference model as it arrives, the tree is dumped at the '
        'end and the tables are audited for leaked inodes and storage after unmount.')
NOTE = ('Seeded search against an in-memory POSIX tree. Trusts the simulated kernel: it takes the '
        'locks the Linux VFS takes and answers from its dentry cache like the kernel does.')


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=rng.choice((['d0', 'd1', 'd0/s0'], ['d0'],
                                                                 G.SMALL_DIRS)))
    c = G.cfg(rng, icache=rng.choice((1, 2, 3, 10, 100)), backup=rng.choice((5, 60, 3600)))
    n = rng.choice((20, 50, 100))
    return {'cfg': c, 'setup': G.setup_ops(rng, g, 0.7, 0.4),
            'clients': G.clients(rng, g, rng.choice((G.NS, G.NS, G.MIXED)), length=n),
            'faults': G.temp_faults(rng)}


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        clients = plan['clients']
        clients = [plan['setup'] + (clients[0] if clients else [])] + clients[1:]
        res = scen.work(run, clients, 'work', faults=plan['faults'], dump=True)
        tree.compare_exact(run.model, res.dump, 'end-state')
        scen.table_check(run)
        dump = scen.read_back(run, salt='read')
        tree.compare_exact(run.model, dump, 'remount')
        scen.fsck_clean(run, 'fsck', 'after a clean unmount')
        return run.stats
    finally:
        run.close()
