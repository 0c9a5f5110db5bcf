'''C05: every command can be killed at any point and recovered from.'''

import os

from .. import gen as G
from .. import scen, tree
from ..core import Violation
from ..store import StoredObject

PROP = 'C05'
RUNS = {'quick': 260, 'thorough': 7000}
RULE = ('One run: a file system with generated content; one of mkfs.s3ql, mount.s3ql, fsck.s3ql, '
        's3qladm shrink-db, restore-metadata, clear or upgrade, or fsck.s3ql after objects were '
        'lost, is killed at generated instants (also during the recovery itself); then fsck.s3ql, a second fsck.s3ql that must be clean, and a mount '
        'that reads everything back, with or without the local cache directory.')
NOTE = ('Seeded search over the kill instants (numbered simulator events, or n source lines after '
        'one). For s3qladm upgrade the file system of the previous revision is derived from a current '
        'one. s3qladm passphrase and recover-key: C19.')

KINDS = [('applied', 25), ('req', 30), ('thread', 25), ('unlink', 10), ('rename', 5), ('fopen', 8),
         ('fwrite', 12), ('fsync', 8), ('apply', 25), ('op-', 10), ('fuse-', 15)]


def points(rng, k, span):
    return G.crash_points(rng, k, KINDS, span)


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=2, dirs=['d0', 'd0/s0'])
    w = G.OpGen(rng, files=3, dirs=[])
    w.dirs = ['w', 'w/x']
    mode = rng.choice(('mkfs', 'clear', 'mount', 'fsck', 'fsck', 'shrink-db', 'restore-metadata',
                       'upgrade', 'repair'))
    c = G.cfg(rng, lat=rng.choice(([0.0], [0.0, 0.01, 0.2], [0.05, 0.5])),
              mdblock=rng.choice((4, 4, 16, 64)))
    return {
        'cfg': c, 'mode': mode,
        'setup': G.setup_ops(rng, g, 0.8, 0.6) + [{'op': 'mkdir', 'path': 'w'}],
        'clients': [w.ops(G.MIXED, rng.choice((0, 4, 12)))] + (
            [w.ops(G.DATA, 6)] if rng.random() < 0.4 else []),
        'faults': G.temp_faults(rng),
        'crash': points(rng, rng.choice((1, 2, 3)), 250),
        'nested': [points(rng, 1, 200) for _ in range(rng.choice((0, 1, 1, 2)))],
        'lose': rng.random() < 0.35,
        'same': rng.random() < 0.5,
        'pick': rng.choice((0, 0, 1, 2)),
        'fill': rng.random() < 0.4,
        'lost': rng.randrange(100), 'nlost': rng.choice((1, 1, 2, 3)),
        'extra': rng.choice(([], ['--force'], ['--keep-cache'])),
    }


def execute(plan, holder):
    if plan['mode'] == 'mkfs':
        return mkfs(plan, holder)
    run = scen.start(plan, holder)
    try:
        setup = plan['setup']
        if plan['fill']:
            setup = [{'op': 'mkdir', 'path': 'big'}] + [
                {'op': 'symlink', 'path': 'big/' + 'n%d' % j + 'x' * 90, 'target': 'y' * 200}
                for j in range(40)] + setup
        scen.work(run, [setup], 'setup', lat=[0.0])
        run.model.sync_all()
        base = run.save()
        mode = plan['mode']
        if mode in ('mount', 'fsck'):
            res = run.mount(plan['clients'], faults=plan['faults'], crash=plan['crash'],
                            salt='work')
            scen.expect_rc(res, 'mount')
            for snap in res.snaps:
                after_crash(run, plan, snap, base)
        elif mode == 'clear':
            clear(run, plan)
        elif mode == 'upgrade':
            upgrade(run, plan)
        elif mode == 'repair':
            repair(run, plan)
        else:
            admin(run, plan, base)
        return run.stats
    finally:
        run.close()


# ---------------------------------------------------------------------- mount and fsck


def after_crash(run, plan, snap, base):
    run.enter_snapshot(snap)
    m = run.model
    if m.inodes is None:
        return
    lose = plan['lose']
    extra = ['--batch']
    if lose:
        seq = max(int(k[12:], 16) for k in run.store.keys('s3ql_params_'))
        torn = [k for k in run.store.keys('s3ql_metadata_') if int(k.rsplit('_', 1)[1], 16) >= seq]
        if torn:
            return
        run.machine = 'n%d' % snap['id']
        extra.append('--force-remote')
    killed = plan['nested'] if plan['mode'] == 'fsck' else []
    finish(run, plan, extra, list(killed), 'r%d' % snap['id'], base, lose)


def finish(run, plan, extra, killed, sid, base, lose):
    '''fsck.s3ql, killed as planned, until it gets through'''
    crash = killed.pop(0) if killed else ()
    ex = extra + [x for x in plan['extra'] if x != '--keep-cache' or not lose]
    res = run.fsck(extra=ex, salt=sid + 'f', crash=crash, faults=plan['faults'])
    scen.expect_rc(res, 'fsck.s3ql', scen.FSCK_OK)
    check(run, sid, base, lose)
    for s in res.snaps:
        run.enter_snapshot(s)
        if lose and not has_params(run) and torn_now(run):
            continue
        finish(run, plan, extra, list(killed), sid + 'k%d' % s['id'], base, lose)


def has_params(run):
    '''The local metadata has been downloaded completely'''
    return any(n.endswith('.params') for n in os.listdir(run.cachedir()))


def torn_now(run):
    seq = max(int(k[12:], 16) for k in run.store.keys('s3ql_params_'))
    return any(int(k.rsplit('_', 1)[1], 16) >= seq for k in run.store.keys('s3ql_metadata_'))


def check(run, sid, base, lose):
    scen.fsck_clean(run, sid + 'g', 'second fsck.s3ql')
    scen.table_check(run)
    dump = scen.read_back(run, salt=sid + 'm')
    if lose:
        unchanged(base[1], dump)
    else:
        tree.compare_crash(run.model, dump)
        unchanged(base[1], dump)


def unchanged(model, dump):
    '''Everything outside w is exactly as before'''
    skip = set()
    root = model.root

    def mark(ino):
        skip.add(ino)
        for c in (model.inodes[ino].children or {}).values():
            mark(c)

    if b'w' in root.children:
        mark(root.children[b'w'])
    for ino, m in model.inodes.items():
        if ino in skip or m.nlink == 0 or ino == tree.LF_INO:
            continue
        r = dump.get(ino)
        if r is None:
            raise Violation('lost', 'inode %d existed before and is gone' % ino)
        tree._check_inode(m, r, 'changed', exact=True)
        if m.children is not None:
            a = {n: i for n, i in m.children.items() if n != b'w'}
            b = {n: i for n, i in r['children'].items() if n != b'w'}
            if a != b:
                raise Violation('changed', 'directory %d holds %s, expected %s'
                                % (ino, tree._ents(b), tree._ents(a)))


# ---------------------------------------------------------------------- s3qladm


def admin(run, plan, base):
    mode = plan['mode']
    stdin = ''
    older = False
    if mode == 'restore-metadata':
        want = max(run.store.keys('s3ql_params_'))
        if plan['pick']:
            # a second session, so that there is something older to go back to
            scen.work(run, plan['clients'] or [[]], 'work', lat=[0.0])
            older = True
            if plan['pick'] == 2:
                want = max(run.store.keys('s3ql_params_'))
                older = False
        stdin = '%d\n' % run.store.keys('s3ql_params_').index(want)
    if not plan['same']:
        run.machine = 'other'
    before = run.save()[1]
    res = run.adm(mode, stdin=stdin, salt='adm', crash=plan['crash'], faults=plan['faults'])
    scen.expect_rc(res, 's3qladm ' + mode)
    r = run.fsck(salt='restored', lat=[0.0])
    scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK if mode != 'shrink-db' else (0,))
    scen.table_check(run)
    scen.fsck_clean(run, 'clean', 'second fsck.s3ql')
    after_admin(run, scen.read_back(run, salt='m'), before, base[1] if older else None)
    for s in res.snaps:
        run.enter_snapshot(s)
        sid = 'a%d' % s['id']
        r = run.fsck(salt=sid + 'f', lat=[0.0])
        scen.expect_rc(r, 'fsck.s3ql after killed s3qladm %s' % mode, scen.FSCK_OK)
        scen.fsck_clean(run, sid + 'g', 'second fsck.s3ql')
        scen.table_check(run)
        dump = scen.read_back(run, salt=sid + 'm')
        after_admin(run, dump, before, base[1] if older else None, killed=True)


def after_admin(run, dump, before, older, killed=False):
    if older is None:
        return tree.compare_exact(before, dump, 'changed')
    if killed:
        try:
            return tree.compare_exact(before, dump, 'changed')
        except Violation:
            pass
    # the state of the older version, except that contents removed since are lost
    pre = run.stats['probes']
    pre['restored-older'] = pre.get('restored-older', 0) + 1
    unchanged(older, dump)
    for ino, m in older.inodes.items():
        r = dump.get(ino)
        if not m.is_reg() or r is None or r['err']:
            continue
        lf = dump[tree.LF_INO]['children'].values()
        if ino not in lf and not any(
                n.startswith(b'w') for n in dump[tree.LF_INO]['children']):
            tree._check_inode(m, r, 'stale-data', exact=True)


def old_format(run):
    '''Turn the file system into one of the previous revision, cleanly unmounted and with its cache'''
    def func(run, sim, spec, d):
        import glob

        import trio
        from s3ql import CURRENT_FS_REV
        from s3ql.authinfo import Authinfo
        from s3ql.backends import open_backend
        from s3ql.backends.comprenc import AsyncComprencBackend
        from s3ql.common import freeze_basic_mapping
        from s3ql.database import read_remote_params
        from ..world import URL

        async def main():
            auth = Authinfo.from_file(os.path.join(run.dir, 'auth'), URL)
            AsyncComprencBackend.set_max_threads(1)
            backend = await open_backend(URL, auth, backend_options=None, max_connections=1,
                                         compress=auth.compress)
            p = await read_remote_params(backend)
            old = {'revision': CURRENT_FS_REV - 1, 'seq_no': p.seq_no, 'label': p.label,
                   'max_obj_size': p.data_block_size, 'needs_fsck': False,
                   'inode_gen': p.inode_gen, 'last_fsck': p.last_fsck,
                   'last-modified': p.last_modified}
            async for key in backend.list('s3ql_'):
                if key == 's3ql_params' or key.startswith(('s3ql_params_', 's3ql_metadata_')):
                    await backend.delete(key)
            await backend.store('s3ql_metadata', b'database dump of the old version',
                                metadata=old)
            params, = glob.glob(os.path.join(run.cachedir(), '*.params'))
            with open(params, 'wb') as fh:
                fh.write(freeze_basic_mapping(old))

        trio.run(main)

    res = run.inc('old', [], func=func, salt='old', lat=[0.0])
    scen.expect_rc(res, 'making an old file system')


def upgrade(run, plan):
    old_format(run)
    m = run.model
    res = run.adm('upgrade', extra=['--metadata-block-size', str(run.cfg['mdblock'])],
                  stdin='yes\n', salt='up', crash=plan['crash'], faults=plan['faults'])
    scen.expect_rc(res, 's3qladm upgrade')
    upgraded(run, plan, m, 'u')
    for s in res.snaps:
        run.enter_snapshot(s)
        resume(run, plan, m, 'u%d' % s['id'], list(plan['nested']))


def resume(run, plan, model, sid, killed):
    '''An interrupted upgrade is taken up again'''
    crash = killed.pop(0) if killed else ()
    if plan['pick'] == 0:
        # not before trying whether it works already
        res = run.mount([[]], salt=sid + 't', faults={})
        scen.expect_rc(res, 'mount.s3ql', (0, 30, 32))
        if res.rc == 30:
            res = run.fsck(salt=sid + 'tf', lat=[0.0])
            scen.expect_rc(res, 'fsck.s3ql', (*scen.FSCK_OK, 32))
    res = run.adm('upgrade', extra=['--metadata-block-size', str(run.cfg['mdblock'])],
                  stdin='yes\n', salt=sid, crash=crash, faults=plan['faults'])
    scen.expect_rc(res, 'second s3qladm upgrade')
    upgraded(run, plan, model, sid)
    for s in res.snaps:
        run.enter_snapshot(s)
        resume(run, plan, model, sid + 'k%d' % s['id'], killed)


def upgraded(run, plan, model, sid):
    p = run.stats['probes']
    p['upgraded'] = p.get('upgraded', 0) + 1
    run.model = model
    if plan['lose']:
        run.machine = 'l' + sid
    tree.compare_exact(model, scen.read_back(run, salt=sid + 'm'), 'changed')
    scen.fsck_clean(run, sid + 'f', 'fsck.s3ql')
    scen.table_check(run)


def repair(run, plan):
    '''The file system is clean, but objects have been lost; fsck.s3ql is killed as it finds out'''
    ids = sorted(run.store.data_ids())
    gone = {ids[(plan['lost'] + 7 * k) % len(ids)] for k in range(plan['nlost'])} if ids else set()
    for i in gone:
        del run.store.objects['s3ql_data_%d' % i]
    run.store.objects['s3ql_data_77777'] = StoredObject(b'not ours', {}, -1)
    con = tree.open_db(tree.db_path(run))
    try:
        hit = {i for i, o in con.execute('SELECT inode, obj_id FROM inode_blocks') if o in gone}
    finally:
        con.close()
    if plan['lose']:
        run.machine = 'm1'
    model = run.model
    extra = ['--batch', '--force']
    res = run.fsck(extra=extra, salt='fix', crash=plan['crash'], faults=plan['faults'])
    repaired(run, model, res, hit, 'x')
    for s in res.snaps:
        run.enter_snapshot(s)
        sid = 'x%d' % s['id']
        if plan['pick'] != 1:
            # carry on as if nothing had happened, if it lets us
            m = run.mount([[{'op': 'mkdir', 'path': 'w/k%d' % i} for i in range(3)]],
                          salt=sid + 't', faults={}, kcfg={'unix_ok': True})
            scen.expect_rc(m, 'mount.s3ql', (0, 30, 31))
            if m.rc == 0:
                keep = run.save(), run.machine
                run.machine = 'q' + sid
                scen.read_back(run, salt=sid + 'q')
                run.load(keep[0])
                run.machine = keep[1]
        killed = plan['nested'][0] if plan['nested'] else ()
        res = run.fsck(extra=extra if run.machine == 'm0' else extra + ['--force-remote'],
                       salt=sid + 'f', faults=plan['faults'], crash=killed)
        repaired(run, model, res, hit, sid)


def repaired(run, model, res, hit, sid):
    scen.expect_rc(res, 'fsck.s3ql', scen.FSCK_OK)
    scen.fsck_clean(run, sid + 'g', 'second fsck.s3ql')
    scen.table_check(run)
    run.machine = 'o' + sid
    dump = scen.read_back(run, salt=sid + 'm')
    lf = set(dump[tree.LF_INO]['children'].values())
    for ino, m in model.inodes.items():
        if not m.nlink or ino in (tree.LF_INO, model.root.children.get(b'w')):
            continue
        r = dump.get(ino)
        if r is None:
            raise Violation('lost', 'inode %d existed before and is gone' % ino)
        if ino in hit:
            if ino not in lf:
                raise Violation('not-reported', 'inode %d has lost data, but is not in lost+found'
                                % ino)
            continue
        if m.children is None:
            tree._check_inode(m, r, 'changed', exact=True)
        elif {n: i for n, i in m.children.items() if i not in hit} != {
                n: i for n, i in r['children'].items() if i not in hit}:
            raise Violation('changed', 'directory %d holds %s, expected %s' % (
                ino, tree._ents(r['children']), tree._ents(m.children)))
    p = run.stats['probes']
    p['repaired'] = p.get('repaired', 0) + 1
    p['lost-data'] = p.get('lost-data', 0) + len(hit)


def clear(run, plan):
    res = run.adm('clear', stdin='yes\n', salt='clear', crash=plan['crash'], faults=plan['faults'])
    scen.expect_rc(res, 's3qladm clear')
    if run.store.objects:
        raise Violation('clear', '%d objects left by s3qladm clear' % len(run.store.objects))
    again(run, plan, 'c')
    for s in res.snaps:
        run.enter_snapshot(s)
        r = run.adm('clear', stdin='yes\n', salt='clear%d' % s['id'])
        scen.expect_rc(r, 'second s3qladm clear')
        if run.store.objects:
            raise Violation('clear', '%d objects left' % len(run.store.objects))
        again(run, plan, 'c%d' % s['id'])


# ---------------------------------------------------------------------- mkfs


def mkfs(plan, holder):
    run = scen.Run(plan)
    holder.update(run=run, stats=run.stats, logs=run.fault_logs)
    try:
        res = run.mkfs(crash=plan['crash'], faults=plan['faults'], salt='mkfs')
        scen.expect_rc(res, 'mkfs.s3ql')
        usable(run, plan, 'u')
        for s in res.snaps:
            run.enter_snapshot(s)
            again(run, plan, 's%d' % s['id'], list(plan['nested']))
        return run.stats
    finally:
        run.close()


def again(run, plan, sid, killed=()):
    '''mkfs.s3ql once more, after s3qladm clear if it asks for that'''
    killed = list(killed)
    crash = killed.pop(0) if killed else ()
    res = run.mkfs(salt=sid + 'mkfs', crash=crash)
    if res.rc and 'Refusing to overwrite' in res.err + res.out:
        keep = run.save()
        # complete enough to be used
        r = run.fsck(salt=sid + 'f', lat=[0.0])
        scen.expect_rc(r, 'fsck.s3ql after killed mkfs.s3ql', scen.FSCK_OK)
        usable(run, plan, sid + 'a')
        run.load(keep)
        r = run.adm('clear', stdin='yes\n', salt=sid + 'c')
        scen.expect_rc(r, 's3qladm clear')
        res = run.mkfs(salt=sid + 'mkfs2')
    scen.expect_rc(res, 'repeated mkfs.s3ql')
    usable(run, plan, sid)
    for s in res.snaps:
        run.enter_snapshot(s)
        again(run, plan, sid + 'k%d' % s['id'], killed)


def usable(run, plan, sid):
    scen.table_check(run)
    run.model = tree.initial_model()
    scen.work(run, [plan['setup'][:8]], sid + 'w', lat=[0.0])
    tree.compare_exact(run.model, scen.read_back(run, salt=sid + 'r'), 'changed')
    scen.table_check(run)
    scen.fsck_clean(run, sid + 'z', 'fsck.s3ql')
