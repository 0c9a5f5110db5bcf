'''C06: stale local metadata is never used and double mounts are refused.'''

import os
import shutil

from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C06'
RUNS = {'quick': 220, 'thorough': 6000}
RULE = ('One run: a generated history of three machines that mount, crash, check, restore and '
        'unmount one file system, each with its own cache directory and clock; whenever the '
        'storage service says that the file system is in use, mounting from every machine is '
        'tried; every mount that succeeds is compared with the current state.')
NOTE = ('Seeded search. Whether the storage service records the file system as mounted is known '
        'from the superblock requests of the killed mount. Two mounts that start at the same '
        'moment on different machines are not covered: the storage services give no lock.')

KINDS = [('applied', 25), ('req', 30), ('unlink', 10), ('rename', 5), ('fwrite', 12), ('fsync', 8),
         ('op-', 20), ('fuse-', 30), ('fuse-close', 1), ('fopen', 10)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=3, dirs=['d0'])
    ev = []
    ms = ['m0', 'm1', 'm2']
    for _ in range(rng.choice((2, 3, 4, 6))):
        k = rng.random()
        m = rng.choice(ms if rng.random() < 0.5 else ms[:2])
        if k < 0.75:
            e = {'ev': 'session', 'm': m, 'keep': rng.random() < 0.5,
                 'clients': [g.ops(rng.choice((G.MIXED, G.DATA)), rng.choice((0, 5, 15)))]}
            if rng.random() < 0.55:
                e['crash'] = G.crash_points(rng, 1, KINDS, 400)
                e['fsck'] = rng.choice(ms)
                e['lines'] = 0
            ev.append(e)
        elif k < 0.85:
            ev.append({'ev': 'restore', 'm': m, 'back': rng.randrange(3)})
        else:
            ev.append({'ev': 'fsck', 'm': m, 'force': rng.random() < 0.7})
    return {
        'cfg': G.cfg(rng, lat=rng.choice(([0.0], [0.0, 0.01, 0.2])),
                     backup=rng.choice((3, 30, 3600)), icache=100,
                     mdblock=rng.choice((4, 4, 16, 64))),
        'setup': G.setup_ops(rng, g, 0.8, 0.6),
        'events': ev, 'probe': rng.random(),
        'skew': {m: rng.choice((0, 0, 0, -90000.0, 1e6, -2e6)) for m in ms},
        'faults': G.temp_faults(rng),
        'finalfsck': [m for m in ms if rng.random() < 0.4],
    }


class World:
    def __init__(self, run, plan):
        self.run, self.plan = run, plan
        self.n = 0
        self.dirs = {}
        self.versions = {}  # sequence number -> model at that clean unmount

    def on(self, m):
        self.run.machine = self.dirs.get(m, m)
        self.run.skew = self.plan['skew'].get(m, 0)

    def salt(self, what):
        self.n += 1
        return '%s%d' % (what, self.n)

    def note(self):
        key = max(self.run.store.keys('s3ql_params_'))
        import copy

        self.versions[int(key[12:], 16)] = copy.deepcopy(self.run.model)


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        w = World(run, plan)
        w.on('m0')
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        w.note()
        for e in plan['events']:
            {'session': session, 'restore': restore, 'fsck': fsck}[e['ev']](w, e)
            probe(run, e['ev'])
        for m in ('m0', 'm1', 'm2'):
            if m in plan['finalfsck']:
                fsck(w, {'m': m, 'force': True})
            check(w, m)
        return run.stats
    finally:
        run.close()


def probe(run, k):
    run.stats['probes'][k] = run.stats['probes'].get(k, 0) + 1


def check(w, m):
    '''A mount on *m* shows the current state'''
    w.on(m)
    dump = scen.read_back(w.run, salt=w.salt('check'))
    tree.compare_exact(w.run.model, dump, 'stale')
    scen.table_check(w.run)


def contents(store):
    return {k: (o.serial, o.data) for k, o in store.objects.items()}


def session(w, e):
    run = w.run
    w.on(e['m'])
    extra = ['--keep-cache'] if e['keep'] else []
    base = run.save()
    res = run.mount(e['clients'], salt=w.salt('work'), crash=e.get('crash', ()), extra=extra,
                    faults=w.plan['faults'], dump=True)
    scen.expect_rc(res, 'mount on ' + e['m'])
    # what it served while mounted is current, not just what a new mount finds
    tree.compare_exact(run.model, res.dump, 'stale')
    if not res.snaps:
        w.note()
        return
    # from here on the world is the one in which this mount has been killed
    snap = res.snaps[0]
    run.enter_snapshot(snap)
    w.dirs[e['m']] = run.machine
    mounted = scen.remote_params(run, w.salt('params'))[1]
    if not snap['puts']:
        # the storage service does not know that this mount ever started
        run.model = base[1]
        probe(run, 'killed-before-start')
        y = e['fsck']
        if y != e['m']:
            w.on(y)
            scen.work(run, e['clients'], w.salt('between'))
            w.note()
        w.on(e['m'])
        r = run.mount([], dump=True, salt=w.salt('again'))
        if r.rc == 30:
            r = run.fsck(salt=w.salt('fsck'))
            scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
        else:
            scen.expect_rc(r, 'mount after kill', (0,))
        check(w, e['m'])
        return
    if not mounted:
        probe(run, 'killed-after-unmount')
        check(w, e['fsck'] if e['fsck'] != e['m'] else 'm2' if e['m'] != 'm2' else 'm1')
        w.note()
        w.on(e['m'])
        r = run.mount([], dump=True, salt=w.salt('again'))
        if r.rc == 30:
            r = run.fsck(salt=w.salt('fsck'))
            scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
        else:
            scen.expect_rc(r, 'mount after kill', (0,))
        check(w, e['m'])
        return
    # mounted, as far as the storage service can tell
    probe(run, 'killed-while-mounted')
    before = contents(run.store)
    for m in ('m0', 'm1', 'm2'):
        w.on(m)
        r = run.mount([], salt=w.salt('refuse'))
        if r.rc not in (30, 31):
            raise Violation('double-mount', 'mount on %s while the file system is mounted on %s: '
                            'exit status %s' % (m, e['m'], r.rc), stderr=r.err[-1500:])
        if contents(run.store) != before:
            raise Violation('double-mount', 'a refused mount changed the storage service')
    y = e['fsck']
    w.on(y)
    if y == e['m']:
        r = run.fsck(salt=w.salt('fsck'))
        scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
        scen.table_check(run)
        dump = scen.read_back(run, salt=w.salt('back'))
        tree.compare_crash(run.model, dump)
        run.model = tree.model_from_dump(dump)
        w.note()
        return
    r = run.fsck(salt=w.salt('fsck'))
    if r.rc != 41:
        raise Violation('stale', 'fsck.s3ql on %s used what it had while %s may hold newer '
                        'metadata: exit status %s' % (y, e['m'], r.rc), stderr=r.err[-1500:])
    if contents(run.store) != before:
        raise Violation('stale', 'a refused fsck.s3ql changed the storage service')
    seq = max(int(k[12:], 16) for k in run.store.keys('s3ql_params_'))
    torn = [k for k in run.store.keys('s3ql_metadata_') if int(k.rsplit('_', 1)[1], 16) >= seq]
    if torn:
        # this metadata can only be restored by hand (C04); use the machine that has it
        e = dict(e, fsck=e['m'])
        w.on(e['m'])
        r = run.fsck(salt=w.salt('fsck'))
        scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
        dump = scen.read_back(run, salt=w.salt('back'))
        tree.compare_crash(run.model, dump)
    else:
        probe(run, 'taken-over')
        r = run.fsck(extra=('--batch', '--force-remote'), salt=w.salt('fsck'))
        scen.expect_rc(r, 'fsck.s3ql --force-remote', scen.FSCK_OK)
        scen.table_check(run)
        dump = scen.read_back(run, salt=w.salt('back'))
    run.model = tree.model_from_dump(dump)
    w.note()


def fsck(w, e):
    '''On a clean file system: finds nothing, whatever this machine still has'''
    w.on(e['m'])
    extra = ['--batch'] + (['--force'] if e['force'] else [])
    r = w.run.fsck(extra=extra, salt=w.salt('fsck'))
    if r.rc != 0:
        raise Violation('stale', 'fsck.s3ql on %s of a clean file system: exit status %s: %s'
                        % (e['m'], r.rc, scen.warnings(r)))
    w.note()


def restore(w, e):
    '''Going back to an older version discards what this machine has cached'''
    run = w.run
    w.on(e['m'])
    avail = [int(k[12:], 16) for k in run.store.keys('s3ql_params_')]
    known = [s for s in avail if s in w.versions]
    if not known:
        return
    seq = known[max(0, len(known) - 1 - e['back'])]
    r = run.adm('restore-metadata', stdin='%d\n' % avail.index(seq), salt=w.salt('restore'))
    scen.expect_rc(r, 's3qladm restore-metadata')
    r = run.fsck(salt=w.salt('fsck'))
    scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
    scen.table_check(run)
    dump = scen.read_back(run, salt=w.salt('back'))
    old = w.versions[seq]
    for ino, m in old.inodes.items():
        if not m.nlink or m.loose:
            continue
        r = dump.get(ino)
        if r is None:
            raise Violation('stale', 'inode %d of the restored version %d is missing' % (ino, seq))
        if m.is_reg() and (ino in dump[tree.LF_INO]['children'].values() or r['err']):
            continue  # some of its contents have been deleted since
        tree._check_inode(m, r, 'stale', exact=True)
    run.model = tree.model_from_dump(dump)
    w.note()
