'''C09: a locked tree stays as it is.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C09'
RUNS = {'quick': 260, 'thorough': 6000}
RULE = ('One run: several mounts. In the first ones a client populates a tree and locks it (or '
        'parts of it, repeatedly), while other clients hold files in it open, write to them and '
        'change directories; then all clients attack the locked trees through paths, hard links '
        'and descriptors opened before, with cache evictions, forgotten inodes, slow and failing '
        'storage. The attack is repeated after a remount (also on another machine) and after '
        'crash and recovery. Everything is read back and compared after each mount.')
NOTE = ('Seeded search. The model predicts for every request whether it has to be refused; '
        'requests in flight while the tree is being locked may go either way; a lock whose '
        'command returned but that was not yet written out may be lost in a crash. Trusts the '
        'simulated kernel and the reference model. The number of rows per batch is scaled down in '
        'most runs.')

ATTACK = [('write', 10), ('create', 6), ('unlink', 6), ('rename', 8), ('link', 4), ('truncate', 5),
          ('setxattr', 4), ('removexattr', 3), ('setattr', 4), ('symlink', 3), ('mkdir', 4),
          ('rmdir', 3), ('read', 4), ('fsync', 0.5), ('flush', 0.5), ('drop', 0.5), ('prune', 3),
          ('sleep', 2), ('open', 4), ('close', 1), ('mknod', 3), ('upload_meta', 0.2),
          ('readdir', 0.5)]


def gen(rng, idx, tier):
    src = ['s', 's/a', 's/a/b', 's/c']
    gx = G.OpGen(rng, files=rng.choice((2, 3)), dirs=src + ['o'])
    gx.dirs = src + ['o']
    gs = G.OpGen(rng, files=2, dirs=src)
    gs.dirs, gs.names = src, gx.names
    setup = [{'op': 'mkdir', 'path': d} for d in src + ['o']]
    for d in src + ['o']:
        for n in gx.names:
            if rng.random() < 0.7:
                p = d + '/' + n
                setup.append({'op': 'create', 'path': p})
                if rng.random() < 0.6:
                    setup.append({'op': 'write', 'path': p, 'off': max(0, gx.off()),
                                  'len': gx.length(), 'tag': gx.data()})
    setup += gx.ops([('link', 3), ('setxattr', 4), ('symlink', 1)], rng.choice((3, 8)))
    big = rng.random() < 0.2
    if big:
        setup.append({'op': 'bulk', 'path': rng.choice(('s/c', 's')), 'n': rng.choice((110, 160)),
                      'style': rng.randrange(7), 'deep': rng.choice((0, 0, 3))})
    slots = [{'op': 'open', 'path': rng.choice(src) + '/' + rng.choice(gx.names), 'slot': i}
             for i in range(rng.choice((0, 2, 4)))]
    sessions = []
    for i in range(rng.choice((1, 2, 2, 3))):
        main = list(slots) if i == 0 else []
        for _ in range(rng.choice((1, 1, 2, 3)) if i == 0 else rng.choice((0, 0, 1))):
            main += gs.ops(ATTACK, rng.choice((0, 1, 4)))
            if rng.random() < 0.3:
                main.append({'op': 'prune', 'frac': 1.0})
            main.append({'op': 'lock', 'path': rng.choice(('s', 's', 's/a', 's/c', 's/a/b', 'o'))})
            if rng.random() < 0.4:
                main.append({'op': rng.choice(('flush', 'drop')), })
            if rng.random() < 0.2:
                main.append({'op': 'cp', 'path': rng.choice(('s', 's/a')),
                             'to': 'c%d' % rng.randrange(3)})
        main += gs.ops(ATTACK, rng.choice((5, 15, 30)))
        if rng.random() < 0.15:
            main.append({'op': 'rmtree', 'path': rng.choice(('s', 's/a', 'c0')), 'quiet': False})
            main += gs.ops(ATTACK, 3)
        clients = [main] + [rng.choice((gs, gx)).ops(ATTACK, rng.choice((5, 15, 40)))
                            for _ in range(rng.choice((0, 1, 2, 3)))]
        sessions.append({'clients': clients, 'machine': rng.choice(('m0', 'm0', 'm1'))})
    race = rng.random() < 0.2
    if race:
        # entries created (and removed) in a directory all the while it is being locked
        d = rng.choice(('s', 's', 's', 's/a', 's/c'))
        new = ['%s/n%02d' % (d, i) for i in range(rng.choice((10, 25, 40)))]
        lead = [{'op': 'sleep', 'secs': 0.0}] * rng.choice((0, 3, 10))
        maker = []
        for p in new:
            maker.append({'op': rng.choice(('create', 'create', 'mkdir', 'mknod')), 'path': p})
            if rng.random() < 0.2:
                maker.append({'op': 'rename', 'path': rng.choice(new), 'to': p + 'r'})
        check = []
        for p in new:
            check.append(rng.choice((
                {'op': 'write', 'path': p, 'off': 0, 'len': 100, 'tag': 3},
                {'op': 'create', 'path': p + '/x'}, {'op': 'mknod', 'path': p + '/x'},
                {'op': 'truncate', 'path': p, 'size': 5})))
        sessions[0]['clients'] = [
            list(slots) + lead + [{'op': 'lock', 'path': rng.choice(('s', d))}] + check, maker
        ] + sessions[0]['clients'][1:rng.choice((1, 2))]
    n = len(sessions)
    plan = {
        'cfg': G.cfg(rng, entries=rng.choice((2, 3, 5, 8, 30)),
                     delay=rng.choice((0, 1, 10, 60, 600)),
                     think=rng.choice(([0.0], [0.0, 0.05], [0.05, 0.5], [0.5, 5.0])),
                     forget_delay=rng.choice([[0.0], [0.0, 0.05], [0.0, 2.0]])),
        'setup': setup, 'presetup': rng.random() < 0.5, 'sessions': sessions,
        'scale': rng.choice((0.02, 0.05, 0.2, 1.0)) if not big else rng.choice((0.1, 1.0, 1.0)),
        'faults': G.temp_faults(rng) if rng.random() < 0.5 else {},
        'crash': G.crash_points(rng, 1, [('applied', 30), ('fuse-', 100), ('op-', 60),
                                         ('fwrite', 20)]) if rng.random() < 0.4 else [],
        'crash_in': rng.randrange(n),
        'after': [gs.ops(ATTACK, rng.choice((10, 25))) for _ in range(rng.choice((1, 2)))],
        'writeback': False,
    }
    if race:
        plan['presetup'] = True
        plan['cfg']['think'] = [0.0]
        plan['scale'] = 0.02
    return G.programs(rng, plan, idx)


def execute(plan, holder):
    run = scen.start(plan, holder)
    kcfg = {'batch_scale': plan['scale'], **G.program_cfg(plan)}
    try:
        if plan['presetup']:
            scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        crashes = []
        for i, s in enumerate(plan['sessions']):
            clients = s['clients']
            if i == 0 and not plan['presetup']:
                clients = [plan['setup'] + clients[0]] + clients[1:]
            if i:
                run.machine = s['machine']
            res = run.mount(clients, faults=plan['faults'], salt='work%d' % i, dump=True,
                            kcfg=kcfg, crash=plan['crash'] if i == plan['crash_in'] else ())
            scen.expect_rc(res, 'mount')
            tree.compare_exact(run.model, res.dump, 'read-back')
            scen.table_check(run)
            for m in run.model.inodes.values():
                if m.locked:
                    m.lock_seq = -1
            crashes += res.snaps
        for snap in crashes:
            run.enter_snapshot(snap)
            if run.model.inodes is None:
                continue
            try:
                attack_after_crash(run, plan, snap, kcfg)
            except Violation as v:
                v.info['crash'] = 'event %d + %d lines; before it: %s' % (
                    snap['ev'], snap['lines'], snap['after'])
                raise
        return run.stats
    finally:
        run.close()


def attack_after_crash(run, plan, snap, kcfg):
    sid = 'r%d' % snap['id']
    dump, _ = scen.recover_here(run, salt=sid)
    old = run.model
    tree.compare_crash(old, dump)
    pending = any(r['kind'] == 'lock' for r in old.inflight.values())
    copying = any(r['kind'] == 'cp' for r in old.inflight.values())
    m = tree.model_from_dump(dump)
    sure = 0
    for ino, x in m.inodes.items():
        o = old.inodes.get(ino)
        if o is None:
            # inode numbers of removed files
            x.lock_unsure = pending or copying
        elif o.locked and o.lock_seq < old.flush_seq and not o.loose:
            x.locked = True
            sure += 1
        else:
            x.lock_unsure = bool(o.locked or pending or o.loose)
    run.model = m
    run.stats['probes']['locked inodes after a crash'] = run.stats['probes'].get(
        'locked inodes after a crash', 0) + sure
    res = run.mount(plan['after'], salt=sid + 'w', dump=True, kcfg=kcfg, lat=[0.0])
    scen.expect_rc(res, 'mount after a crash')
    tree.compare_exact(run.model, res.dump, 'read-back')
    scen.table_check(run)
