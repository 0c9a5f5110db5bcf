'''C24: removing a tree removes all of it, and nothing else.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C24'
RUNS = {'quick': 260, 'thorough': 6000}
RULE = ('One run: a mount in which one client populates a tree (with hard links into and out of '
        'it, open files, extended attributes, locked parts, copies of other trees) and removes it '
        'or parts of it with s3qlrm, while other clients work elsewhere, on hard links to the '
        'same files, or inside the tree being removed, with cache evictions, forgotten inodes, '
        'slow and failing storage, and crash instants; everything is read back at the end, after '
        'a remount and after each crash, and the database tables and the stored objects are '
        'compared.')
NOTE = ('Seeded search. Without interference in the tree the result must be exactly the tree gone '
        'and everything else untouched; with interference, entries below the removed directory '
        'may or may not survive, but the rest of the file system and the consistency of the '
        'metadata are checked in full. Trusts the simulated kernel and the reference model. The '
        'number of rows per batch is scaled down in most runs.')

WORK = [('write', 8), ('create', 6), ('unlink', 4), ('rename', 6), ('link', 4), ('truncate', 2),
        ('setxattr', 3), ('removexattr', 1), ('setattr', 2), ('symlink', 2), ('mkdir', 3),
        ('rmdir', 2), ('read', 3), ('fsync', 0.5), ('flush', 0.5), ('drop', 0.5), ('prune', 3),
        ('sleep', 2), ('open', 3), ('close', 1), ('mknod', 1), ('upload_meta', 0.3),
        ('statfs', 0.2)]


def gen(rng, idx, tier):
    src = ['s', 's/a', 's/a/b', 's/c', 's/c/d']
    gs = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=src)
    gs.dirs = src
    go = G.OpGen(rng, files=3, dirs=['o', 'p'])
    go.dirs = ['o', 'p']
    gx = G.OpGen(rng, files=3, dirs=src + ['o'])
    gx.dirs = src + ['o']
    setup = [{'op': 'mkdir', 'path': d} for d in ['o', 'p'] + src]
    for d in src + ['o']:
        for n in gs.names:
            if rng.random() < 0.6:
                p = d + '/' + n
                setup.append({'op': 'create', 'path': p})
                if rng.random() < 0.7:
                    setup.append({'op': 'write', 'path': p, 'off': max(0, gs.off()),
                                  'len': gs.length(), 'tag': gs.data()})
    setup += gx.ops([('link', 4), ('setxattr', 3), ('symlink', 1), ('setattr', 1), ('open', 2)],
                    rng.choice((2, 8)))
    big = rng.random() < 0.25
    if big:
        setup.append({'op': 'bulk', 'path': rng.choice(('s/c', 's', 's/a')),
                      'n': rng.choice((110, 220)), 'style': rng.randrange(7),
                      'deep': rng.choice((0, 0, 3))})
    mode = rng.choice(('quiet', 'quiet', 'quiet', 'busy', 'busy'))
    quiet = mode == 'quiet'
    main = gs.ops(WORK, rng.choice((0, 2, 6)))
    if rng.random() < 0.2:
        main.append({'op': 'cp', 'path': 's', 'to': rng.choice(('s2', 'o/s2'))})
    for i in range(rng.choice((1, 2, 3))):
        if rng.random() < 0.4:
            main.append({'op': 'prune', 'frac': rng.choice((0.5, 1.0))})
        if rng.random() < 0.2:
            main.append({'op': 'lock', 'path': rng.choice(src)})
        if rng.random() < 0.3:
            main.append({'op': 'open', 'path': rng.choice(src) + '/' + rng.choice(gs.names),
                         'slot': rng.randrange(3)})
        main.append({'op': 'rmtree', 'quiet': quiet, 'path': rng.choice(
            ['s'] * 4 + ['s/a', 's/c', 's2', 's/a/b/f0', 'o/f0'])})
        if rng.random() < 0.5:
            # the same names again
            main += [{'op': 'mkdir', 'path': d} for d in src]
        main += gs.ops(WORK, rng.choice((0, 3, 8)))
    clients = [main]
    for _ in range(rng.choice((0, 1, 1, 2, 3)) + (not quiet)):
        clients.append((go if quiet else gx).ops(WORK, rng.choice((5, 10, 30))))
    plan = {
        'cfg': G.cfg(rng, entries=rng.choice((2, 3, 5, 8, 30)),
                     delay=rng.choice((0, 1, 10, 60, 600)),
                     think=rng.choice(([0.0], [0.0, 0.05], [0.05, 0.5], [0.5, 5.0])),
                     forget_delay=rng.choice([[0.0], [0.0, 0.05], [0.0, 2.0]])),
        'setup': setup, 'presetup': rng.random() < 0.3, 'clients': clients,
        'scale': rng.choice((0.02, 0.05, 0.2, 1.0)) if not big else rng.choice((0.1, 1.0, 1.0)),
        'faults': G.temp_faults(rng) if rng.random() < 0.6 else {},
        'crash': G.crash_points(rng, rng.choice((1, 2)), [
            ('applied', 30), ('thread', 40), ('fuse-', 100), ('op-', 30), ('fwrite', 20)])
        if rng.random() < 0.45 else [],
        'second': gs.ops(WORK, rng.choice((0, 5))),
        'newhost': rng.random() < 0.4,
    }
    return G.programs(rng, plan, idx)


def execute(plan, holder):
    run = scen.start(plan, holder)
    kcfg = {'batch_scale': plan['scale'], **G.program_cfg(plan)}
    try:
        clients = plan['clients']
        if plan['presetup']:
            scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        else:
            clients = [plan['setup'] + clients[0]] + clients[1:]
        res = run.mount(clients, faults=plan['faults'], crash=plan['crash'], salt='work', dump=True,
                        kcfg=kcfg)
        scen.expect_rc(res, 'mount')
        tree.compare_exact(run.model, res.dump, 'read-back')
        scen.table_check(run)
        if plan['newhost']:
            run.machine = 'm1'
        res2 = scen.work(run, [plan['second']], 'second', faults=plan['faults'], dump=True,
                         kcfg=kcfg)
        tree.compare_exact(run.model, res2.dump, 'read-back')
        scen.table_check(run)
        scen.verify_data(run, 'v')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            if run.model.inodes is None:
                continue
            try:
                dump, _ = scen.recover_here(run, salt='r%d' % snap['id'], second=True)
                tree.compare_crash(run.model, dump)
            except Violation as v:
                v.info['crash'] = 'event %d + %d lines; before it: %s' % (
                    snap['ev'], snap['lines'], snap['after'])
                raise
        return run.stats
    finally:
        run.close()
