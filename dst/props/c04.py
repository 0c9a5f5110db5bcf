'''C04: uploaded metadata restores exactly the recorded state on any machine.'''

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C04'
RUNS = {'quick': 220, 'thorough': 7000}
RULE = ('One run: mounts on alternating machines with frequent metadata backups; at generated '
        'instants the machine is lost with its cache and another one recovers from the storage '
        'service alone (fsck.s3ql --force-remote, or s3qladm restore-metadata when a backup was '
        'under way); older metadata versions are restored and compared with the recorded history '
        'of the namespace.')
NOTE = ('Seeded search. Namespaces restored from a backup must equal one instant of the recorded '
        'history (one client changes the namespace, so that the history is totally ordered); '
        'contents flushed before the backup and not changed since must be exact. The instant of a '
        'backup is only known to lie between two stored superblocks.')

DATAONLY = [('write', 12), ('read', 6), ('truncate', 3), ('open', 2), ('close', 2), ('fsync', 1),
            ('flush', 1), ('drop', 0.5), ('sleep', 4), ('stat', 1), ('cachesize', 0.3)]
NSB = [('create', 6), ('mkdir', 4), ('unlink', 3), ('rmdir', 2), ('rename', 6), ('link', 3),
       ('symlink', 2), ('setxattr', 4), ('removexattr', 2), ('write', 5), ('flush', 2.5),
       ('upload_meta', 2), ('sleep', 4), ('prune', 1), ('fsync', 1), ('setattr', 1)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((3, 4)), dirs=['d0', 'd1', 'd0/s0'])
    g2 = G.OpGen(rng, files=2, dirs=[])
    g2.names = ['g0', 'g1']
    c = G.cfg(rng, backup=rng.choice((1, 2, 5, 20, 60)), mdblock=rng.choice((4, 4, 8, 64)),
              think=rng.choice(([0.0, 0.1], [0.0, 0.0, 3.0], [0.5, 5.0])),
              lat=rng.choice(([0.0], [0.0, 0.01], [0.05, 0.5], [0.01, 3.0])))
    sess = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        clients = [g.ops(NSB, rng.choice((20, 40, 80)))]
        if rng.random() < 0.6:
            clients.append(g2.ops(DATAONLY, 20))
        sess.append({'clients': clients, 'machine': rng.choice(('m0', 'm0', 'm1'))})
    setup = G.setup_ops(rng, g, 0.7, 0.4) + [{'op': 'create', 'path': n} for n in g2.names]
    trees = idx % 3 == 2
    if trees:
        # the tables are rewritten in many transactions while backups are being made
        for k, s in enumerate(sess):
            ops = []
            if not k:
                ops = [{'op': 'mkdir', 'path': p} for p in ('z', 'z/t')] + [
                    {'op': 'bulk', 'path': 'z/t', 'n': rng.choice((30, 60, 110)), 'deep': 2}]
            for j in range(rng.choice((2, 4, 8))):
                p = 'z/c%d%d' % (k, j)
                ops += [{'op': 'cp', 'path': 'z/t', 'to': p},
                        {'op': 'sleep', 'secs': rng.choice((0, 0.1, 2, 10))}]
                if rng.random() < 0.7:
                    ops += [{'op': 'rmtree', 'path': p, 'quiet': True}]
            s['clients'].append(ops)
    return {
        'trees': trees, 'scale': rng.choice((0.02, 0.1, 0.3)),
        'cfg': c, 'setup': setup, 'sessions': sess, 'faults': G.temp_faults(rng),
        'crash': G.crash_points(rng, rng.choice((1, 2, 3)),
                                [('req', 300), ('applied', 300), ('op-', 60), ('thread', 200)],
                                3000),
        'restore': [rng.randrange(40) for _ in range(2)],
        'fill': rng.random() < 0.5,
    }


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        run.model.ns_hist = []
        kcfg = {}
        if plan.get('trees'):
            run.model.veil = b'z'
            kcfg = {'batch_scale': plan['scale']}
        run.model.ns_note()
        n = len(plan['sessions'])
        if not n:
            return run.stats
        for i, s in enumerate(plan['sessions']):
            clients = s['clients']
            if i == 0:
                clients = [plan['setup'] + (clients[0] if clients else [])] + clients[1:]
            run.machine = s['machine']
            fill = plan.get('fill')
            if fill and i == 0:
                # so much metadata that it takes several blocks
                clients = [[{'op': 'mkdir', 'path': 'big'}] + [
                    {'op': 'symlink', 'path': 'big/' + 'n%d' % j + 'x' * 90, 'target': 'y' * 200}
                    for j in range(40)] + clients[0]] + clients[1:]
            run.model.marks.append((0, len(run.model.ns_hist) - 1, dict(run.model.flushed)))
            res = scen.work(run, clients, 'work%d' % i, faults=plan['faults'], kcfg=kcfg,
                            crash=plan['crash'] if i == n - 1 else ())
            run.model.ns_note()
            # a clean unmount makes everything durable
            run.model.flushed.update({m.ino: m.mod_seq for m in run.model.inodes.values()})
            keep = run.save()
            run.machine = 'x%d' % i
            dump = scen.read_back(run, salt='read%d' % i)
            tree.compare_exact(run.model, dump, 'other-machine')
            run.load(keep)
            if i == n - 1:
                versions(run, plan)
                for snap in res.snaps:
                    lost_machine(run, plan, snap)
        return run.stats
    finally:
        run.close()


def seqs(store):
    return sorted(int(k[12:], 16) for k in store.keys('s3ql_params_'))


def restore(run, seq, salt):
    '''s3qladm restore-metadata; returns the namespace of the restored database'''
    avail = seqs(run.store)
    res = run.adm('restore-metadata', stdin='%d\n' % avail.index(seq), lat=[0.0], salt=salt)
    scen.expect_rc(res, 's3qladm restore-metadata of version %d of %s' % (seq, avail))
    return tree.db_namespace(tree.db_path(run))


def interval(model, seq):
    '''History entries between which the consistent snapshot of this version was taken'''
    marks = model.marks
    last = max(i for i, m in enumerate(marks) if m[0] == seq)
    first = min(i for i, m in enumerate(marks) if m[0] == seq)
    lo = marks[first][1]
    # a retried upload of the superblock may have been applied twice
    while first and marks[first - 1][1] == lo:
        first -= 1
    return max(0, lo - 2), marks[last][1]


def versions(run, plan):
    '''After a clean unmount every retained version can be restored'''
    keep = run.save()
    avail = seqs(run.store)
    if len(avail) < min(32, len({m[0] for m in run.model.marks if m[0]})):
        raise Violation('retention', 'only versions %s left of %s'
                        % (avail, sorted({m[0] for m in run.model.marks})))
    known = [s for s in avail if any(m[0] == s for m in run.model.marks)]
    for j, r in enumerate(plan['restore']):
        if not known:
            break
        # the newest, the oldest, and others
        seq = known[-1 - r % len(known)]
        run.load(keep)
        run.machine = 'v%d' % j
        ns = restore(run, seq, 'restore%d' % j)
        lo, hi = interval(run.model, seq)
        why = tree.match_instant(run.model.ns_hist, lo, hi, ns)
        if why:
            raise Violation('not-an-instant', 'version %d: %s' % (seq, why))
        run.stats['probes']['versions'] = run.stats['probes'].get('versions', 0) + 1
    run.load(keep)


def lost_machine(run, plan, snap):
    run.enter_snapshot(snap)
    m = run.model
    if m.inodes is None:
        return
    run.machine = 'n%d' % snap['id']
    avail = seqs(run.store)
    cur = avail[-1]
    partial = [k for k in run.store.keys('s3ql_metadata_')
               if int(k.rsplit('_', 1)[1], 16) >= cur]
    done = [s for s in avail if s < cur and any(x[0] == s for x in m.marks)]
    probes = run.stats['probes']
    sid = 'l%d' % snap['id']
    if partial:
        # a backup was under way: the last complete version can be restored
        seq = cur - 1
        if seq not in done:
            return
        probes['torn'] = probes.get('torn', 0) + 1
        keep = run.save()
        # whatever fsck.s3ql makes of half a backup, it must not get in the way of going back
        res = run.fsck(extra=('--batch', '--force-remote'), lat=[0.0], salt=sid + 'f',
                       allow_exc=True)
        if not res.exc:
            scen.expect_rc(res, 'fsck.s3ql --force-remote', (0, 128, 43, 172))
        run.load(keep)
        run.machine = 'n%db' % snap['id']
        ns = restore(run, seq, sid + 'r')
        lo, hi = interval(m, seq)
        why = tree.match_instant(m.ns_hist, lo, hi, ns)
        if why:
            raise Violation('not-an-instant', 'version %d after loss of the machine: %s'
                            % (seq, why))
        res = run.fsck(lat=[0.0], salt=sid + 'g')
        scen.expect_rc(res, 'fsck.s3ql after restore', scen.FSCK_OK)
    else:
        probes['lost'] = probes.get('lost', 0) + 1
        res = run.fsck(extra=('--batch', '--force-remote'), lat=[0.0], salt=sid + 'f')
        scen.expect_rc(res, 'fsck.s3ql --force-remote', scen.FSCK_OK)
        seq = cur - 1
        if seq not in done:
            seq = None
    if tree.db_path(run):  # fsck.s3ql has nothing to do if the unmount was complete
        scen.table_check(run)
    dump = scen.read_back(run, salt=sid + 'm')
    # what had been flushed before the backup began and has not been changed since
    marks = m.marks
    if seq is None:
        return
    first = min(i for i, x in enumerate(marks) if x[0] == seq)
    flushed = marks[first][2]
    touched = {x.ino for r in m.inflight.values() for x in r['inos']}
    dirs = {i for i, x in m.inodes.items() if x.is_dir() and flushed.get(i) == x.mod_seq
            and i not in touched}
    n = 0
    for ino, x in m.inodes.items():
        if flushed.get(ino) != x.mod_seq or x.mods or x.maybe or ino in touched or not x.nlink:
            continue
        r = dump.get(ino)
        if r is None:
            raise Violation('backup-loss', 'inode %d was flushed before backup %d and not changed '
                            'since, but is gone after loss of the machine' % (ino, seq))
        if not x.is_dir():
            tree._check_inode(x, r, 'backup-loss', exact=True)
        n += 1
    for d in dirs:
        r = dump.get(d)
        if r is None or d == tree.LF_INO:
            continue
        for name, ino in m.inodes[d].children.items():
            if ino in m.inodes and flushed.get(ino) == m.inodes[ino].mod_seq \
                    and r['children'].get(name) != ino:
                raise Violation('backup-loss', 'entry %r of directory %d is %s after loss of the '
                                'machine' % (name, d, r['children'].get(name)))
    probes['flushed-files'] = probes.get('flushed-files', 0) + n
