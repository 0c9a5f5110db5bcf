'''C10: replicating a tree gives an exact, independent snapshot.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation
from ..world import khook

PROP = 'C10'
RUNS = {'quick': 220, 'thorough': 6000}
RULE = ('One run: a mount in which one client populates a tree, replicates it several times and '
        'changes or removes source and replicas, while other clients work elsewhere or inside the '
        'source, with cache evictions, forgotten inodes, slow and failing storage, and crash '
        'instants; each replica is read completely when the command returns and compared with '
        'what the source held during the command; everything is read back at the end, after a '
        'remount and after each crash.')
NOTE = ('Seeded search. The replica must equal the source exactly (names, data, attributes, '
        'extended attributes, hard-link structure) for everything that did not change during the '
        'command; for files being written, each byte must be old or new. Trusts the simulated '
        'kernel and the reference model. The number of rows per batch is scaled down in most runs.')

WORK = [('write', 10), ('create', 5), ('unlink', 3), ('rename', 4), ('link', 3), ('truncate', 3),
        ('setxattr', 3), ('removexattr', 1), ('setattr', 2), ('symlink', 1.5), ('mkdir', 2),
        ('rmdir', 1), ('read', 3), ('fsync', 0.7), ('flush', 0.5), ('drop', 0.7), ('prune', 3),
        ('sleep', 2), ('open', 2), ('close', 2), ('mknod', 0.5), ('upload_meta', 0.2)]


@khook
def c10_end(k):
    async def nothing():
        k.sim.ev('copies', k.copies_checked, k.copies_full, k.copies_weak)
    return nothing()


def gen(rng, idx, tier):
    src = ['s', 's/a', 's/a/b', 's/c']
    gs = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=src)
    gs.dirs = src
    go = G.OpGen(rng, files=2, dirs=['o'])
    go.dirs = ['o']
    gx = G.OpGen(rng, files=3, dirs=src + ['o'])
    gx.dirs = src + ['o']
    setup = [{'op': 'mkdir', 'path': d} for d in src + ['o']]
    for d in src + ['o']:
        for n in gs.names:
            if rng.random() < 0.6:
                p = d + '/' + n
                setup.append({'op': 'create', 'path': p})
                if rng.random() < 0.8:
                    setup.append({'op': 'write', 'path': p, 'off': gs.off(),
                                  'len': gs.length(), 'tag': gs.data()})
    setup = [dict(o, off=max(0, o['off'])) if o['op'] == 'write' else o for o in setup]
    setup += gx.ops([('link', 3), ('setxattr', 3), ('symlink', 1), ('setattr', 1)],
                    rng.choice((2, 6)))
    big = rng.random() < 0.2
    if big:
        setup.append({'op': 'bulk', 'path': 's/c', 'n': rng.choice((110, 160)),
                      'style': rng.randrange(7), 'deep': rng.choice((0, 0, 3))})
    mode = rng.choice(('quiet', 'quiet', 'quiet', 'busy', 'busy', 'busy', 'target'))
    main = gs.ops(WORK, rng.choice((2, 6)))
    copies = []
    for i in range(rng.choice((1, 2, 3))):
        if rng.random() < 0.3:
            main.append({'op': 'prune', 'frac': 1.0})
        if rng.random() < 0.2:
            main.append({'op': 'lock', 'path': rng.choice(src)})
        to = 'c%d' % i if rng.random() < 0.85 else 'o/c%d' % i
        frm = rng.choice(['s'] * 5 + ['s/a', 's/a/b'] + copies)
        main.append({'op': 'cp', 'path': frm, 'to': to})
        copies.append(to)
        gs.dirs = src + [c + x for c in copies for x in ('', '/a', '/a/b')]
        main += gs.ops(WORK, rng.choice((0, 3, 10)))
        if rng.random() < 0.2:
            main.append({'op': 'rmtree', 'path': rng.choice(['s/a'] + copies),
                         'quiet': mode == 'quiet'})
    gt = G.OpGen(rng, files=3, dirs=['c0'])
    gt.dirs = ['c0', 'c1', 'c0/a']
    other = {'quiet': go, 'busy': gx, 'target': gt}[mode]
    clients = [main] + [other.ops(WORK, rng.choice((4, 10, 20)))
                        for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    if mode == 'target':
        for cl in clients[1:]:
            cl += [rng.choice((
                {'op': 'create', 'path': rng.choice(('c0/f0', 'c0/f1', 'c0/b'))},
                {'op': 'mkdir', 'path': 'c0/a'}, {'op': 'rmdir', 'path': 'c0'},
                {'op': 'sleep', 'secs': rng.choice((0.1, 1.0, 10.0))},
                {'op': 'stat', 'path': 'c0/f0'})) for _ in range(rng.choice((5, 20)))]
            rng.shuffle(cl)
    c = G.cfg(rng, entries=rng.choice((2, 3, 5, 8, 30)), delay=rng.choice((0, 1, 10, 60, 600)),
              forget_delay=rng.choice([[0.0], [0.0, 0.05], [0.0, 2.0]]))
    plan = {
        'cfg': c, 'setup': setup, 'presetup': rng.random() < 0.3, 'clients': clients,
        'scale': rng.choice((0.02, 0.05, 0.2, 1.0)) if not big else rng.choice((0.1, 1.0, 1.0)),
        'faults': G.temp_faults(rng) if rng.random() < 0.6 else {},
        'crash': G.crash_points(rng, 1, [('applied', 30), ('thread', 40), ('fuse-', 80),
                                         ('op-', 30), ('fwrite', 20)])
        if rng.random() < 0.45 else [],
        'second': gs.ops(WORK, rng.choice((0, 5))),
        'newhost': rng.random() < 0.4,
    }
    return G.programs(rng, plan, idx)


def execute(plan, holder):
    run = scen.start(plan, holder)
    kcfg = {'at_end': 'c10_end', 'batch_scale': plan['scale'], **G.program_cfg(plan)}
    try:
        clients = plan['clients']
        if plan['presetup']:
            scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        else:
            clients = [plan['setup'] + clients[0]] + clients[1:]
        res = run.mount(clients, faults=plan['faults'], crash=plan['crash'], salt='work', dump=True,
                        kcfg=kcfg)
        scen.expect_rc(res, 'mount')
        tree.compare_exact(run.model, res.dump, 'read-back')
        scen.table_check(run)
        if plan['newhost']:
            run.machine = 'm1'
        res2 = scen.work(run, [plan['second']], 'second', faults=plan['faults'], dump=True,
                         kcfg=kcfg)
        tree.compare_exact(run.model, res2.dump, 'read-back')
        scen.verify_data(run, 'v')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            if run.model.inodes is None:
                continue
            try:
                dump, _ = scen.recover_here(run, salt='r%d' % snap['id'], second=True)
                tree.compare_crash(run.model, dump)
            except Violation as v:
                v.info['crash'] = 'event %d + %d lines; before it: %s' % (
                    snap['ev'], snap['lines'], snap['after'])
                raise
        return run.stats
    finally:
        run.close()
