'''C03: after a clean unmount metadata and stored objects agree exactly.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C03'
RUNS = {'quick': 260, 'thorough': 8000}
RULE = ('One run: one to three mounts with concurrent work (much of it writing equal blocks, '
        'overwriting and deleting blocks that are being uploaded), temporary storage faults; after '
        'each clean unmount the tables, the listing of the storage service and the stored data '
        'are audited, and a forced fsck.s3ql must find nothing.')
NOTE = ('Seeded search; the audit recomputes every reference count from the metadata tables, '
        'compares them with the storage service, has s3ql_verify --data re-hash every object and '
        'reads every file back on another machine. Trusts dst/tree.py and the simulated storage.')

CHURN = [('write', 14), ('create', 5), ('truncate', 5), ('unlink', 5), ('rename', 2), ('link', 1),
         ('open', 3), ('close', 3), ('flush', 1.5), ('drop', 1), ('sleep', 3), ('read', 2),
         ('fsync', 1), ('prune', 1), ('setxattr', 1), ('removexattr', 0.5), ('mkdir', 1),
         ('rmdir', 0.7), ('symlink', 0.7), ('upload_meta', 0.4), ('cachesize', 0.3)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=rng.choice(([], ['d0', 'd1'])),
                tags=rng.choice((1, 2, 4)), blocks=rng.choice((1, 2, 4)))
    c = G.cfg(rng, entries=rng.choice((1, 2, 4, 8, 30)), delay=rng.choice((0, 0, 1, 5, 60)))
    n = rng.choice((15, 30, 60))
    sess = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        sess.append(G.clients(rng, g, rng.choice((CHURN, CHURN, G.DATA, G.MIXED, G.NS)),
                              n=rng.choice((1, 2, 3, 5)), length=n))
    return {'cfg': c, 'setup': G.setup_ops(rng, g, 0.8, 0.6), 'sessions': sess,
            'faults': G.temp_faults(rng), 'newhost': rng.random() < 0.3}


def audit(run, i, what):
    st = scen.table_check(run)
    for k, v in st.items():
        run.stats['probes'][k] = run.stats['probes'].get(k, 0) + v
    if run.store.reused:
        raise Violation('id-reuse', 'object keys used again: %s' % run.store.reused[:5])
    scen.fsck_clean(run, 'fsck%d' % i, what)
    scen.verify_data(run, 'verify%d' % i)


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        sess = [list(s) for s in plan['sessions']]
        sess[0][0] = plan['setup'] + sess[0][0]
        for i, clients in enumerate(sess):
            scen.work(run, clients, 'work%d' % i, faults=plan['faults'])
            audit(run, i, 'after a clean unmount')
            if plan['newhost'] and i == 0:
                run.machine = 'm1'
        run.machine = 'm2'
        dump = scen.read_back(run, salt='read')
        tree.compare_exact(run.model, dump, 'content')
        return run.stats
    finally:
        run.close()
