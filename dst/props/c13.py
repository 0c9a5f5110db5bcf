'''C13: fsck.s3ql repairs any damage and keeps everything that is intact.'''

import os
import sqlite3
import stat

from .. import gen as G
from .. import scen, tree
from ..core import Violation, stream
from ..store import StoredObject

PROP = 'C13'
RUNS = {'quick': 420, 'thorough': 9000}
RULE = ('One run: fill a file system, unmount cleanly or crash in the middle of the work, then damage '
        'the metadata rows (delete, change, insert), the stored objects and the cache files and run '
        'fsck.s3ql --force (crashed itself in some runs). It must end with 0 or 128, leave tables that satisfy the invariants '
        'and are all reachable, a second forced run must find nothing and change nothing, the file '
        'system must mount, and every file whose rows and objects are unharmed must be found with '
        'the same bytes: under its name if that is unharmed too.')
NOTE = ('Seeded search over damage. The damage respects the constraints of the database schema '
        '(SQLite itself rejects anything else as corruption); it includes rows that refer to nothing, '
        'wrong counts and sizes, cycles and lost or foreign objects. Deviations from Unix conventions '
        '(a symlink without target, a file with children, ...) only have to be reported, as '
        "documented by the project's own tests. Directories with two entries are not generated.")

COLS = {
    'inodes': ['mode', 'refcount', 'refcount', 'size', 'rdev', 'uid', 'mtime_ns', 'locked'],
    'contents': ['name_id', 'inode', 'parent_inode', 'parent_inode'],
    'names': ['name', 'refcount'],
    'objects': ['hash', 'refcount', 'refcount', 'phys_size', 'length'],
    'inode_blocks': ['inode', 'blockno', 'obj_id', 'obj_id'],
    'symlink_targets': ['inode', 'target'],
    'ext_attributes': ['inode', 'name_id', 'value'],
}
KEY = {'inodes': 'id', 'contents': 'rowid', 'names': 'id', 'objects': 'id', 'inode_blocks': 'rowid',
       'symlink_targets': 'inode', 'ext_attributes': 'rowid'}
TABLES = sorted(COLS)
WORK = [('write', 10), ('create', 4), ('truncate', 3), ('unlink', 3), ('rename', 3), ('link', 2),
        ('open', 2), ('close', 2), ('flush', 1.5), ('sleep', 3), ('setxattr', 2), ('mkdir', 1),
        ('symlink', 1), ('read', 1), ('drop', 0.5)]


def one(rng, crashed):
    x = rng.random()
    op = {'seed': rng.randrange(1 << 30), 'n': rng.randrange(1000)}
    if x < 0.38:
        op.update(how='del', table=rng.choice(TABLES + ['names', 'contents', 'inodes']))
    elif x < 0.74:
        t = rng.choice(TABLES)
        op.update(how='set', table=t, col=rng.choice(COLS[t]),
                  val=rng.choice(('other', 'other', 'missing', 'small')))
    elif x < 0.84:
        op.update(how='add', what=rng.choice(('inode', 'dir', 'name', 'object', 'block', 'entry',
                                              'xattr', 'target', 'nullhash', 'failed',
                                              'lofself')))
    elif x < 0.95 or not crashed:
        op.update(how='store', what=rng.choice(('lose', 'lose', 'lose', 'foreign', 'weird')))
    else:
        op.update(how='cache', what=rng.choice(('lose', 'unknown', 'tmp', 'empty', 'hole', 'block')))
    return op


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=3, dirs=rng.choice((['d0', 'd1', 'd0/s0'], ['d0', 'd0/s0', 'd0/s0/t0'])),
                tags=rng.choice((2, 3, 6)), blocks=rng.choice((2, 4)))
    crashed = rng.random() < 0.4
    c = G.cfg(rng, lat=rng.choice(([0.0], [0.0, 0.01], [0.05, 0.5])), keep_cache=rng.random() < 0.2)
    plan = {'cfg': c, 'setup': G.setup_ops(rng, g, 0.9, 0.8),
            'clients': G.clients(rng, g, WORK, n=rng.choice((1, 2)), length=rng.choice((10, 25, 40))),
            'damage': [one(rng, crashed) for _ in range(rng.choice((1, 1, 1, 2, 3, 6)))],
            'crash': [], 'nested': [], 'lof': rng.choice((None, None, None, 'none', 'file', 'deep'))}
    if crashed:
        plan['crash'] = G.crash_points(rng, 1, [('req', 60), ('thread', 100), ('op-', 40)], 700)
    if rng.random() < 0.15:
        plan['nested'] = G.crash_points(rng, 1, [('req', 12), ('applied', 12)], 600)
    return plan


# ---------------------------------------------------------------------- tables


def tables(path):
    con = tree.open_db(path)
    try:
        return {t: {r[0]: r[1:] for r in con.execute(
            'SELECT %s, * FROM %s' % ('rowid AS r', t) if t in ('inode_blocks', 'ext_attributes')
            else 'SELECT * FROM %s' % t)} if t not in ('inode_blocks', 'ext_attributes')
            else {r[:2]: r[2] for r in con.execute('SELECT * FROM %s' % t)} for t in TABLES}
    finally:
        con.close()


# inodes: uid 0 gid 1 mode 2 mtime 3 atime 4 ctime 5 refcount 6 size 7 rdev 8 locked 9
# names: name 0 refcount 1; objects: hash 0 refcount 1 phys 2 length 3
# contents: name_id 0 inode 1 parent 2

def unix_problems(t):
    '''Deviations from Unix conventions: {inodes}, names too long'''
    kids = {r[2] for r in t['contents'].values()}
    blocks = {k[0] for k in t['inode_blocks']}
    bad = set()
    for i, r in t['inodes'].items():
        mode, size, rdev = r[2], r[7], r[8]
        target = t['symlink_targets'].get(i)
        lnk = stat.S_ISLNK(mode)
        if lnk != (target is not None) or (lnk and target and size != len(target[0])):
            bad.add(i)
        if size and not (lnk or stat.S_ISREG(mode) or stat.S_ISDIR(mode)):
            bad.add(i)
        if rdev and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
            bad.add(i)
        if i in kids and not stat.S_ISDIR(mode):
            bad.add(i)
        if i in blocks and not stat.S_ISREG(mode):
            bad.add(i)
    return bad


def comparable(t):
    '''The tables without what fsck may tidy up silently'''
    used = set(t['inode_blocks'].values())
    out = dict(t)
    out['objects'] = {k: v for k, v in t['objects'].items() if v[1] != 0 or k in used}
    return out


def diff(a, b):
    for t in TABLES:
        for k in sorted(set(a[t]) | set(b[t]), key=repr):
            if a[t].get(k) != b[t].get(k):
                return '%s %s: %r, then %r' % (t, k, a[t].get(k), b[t].get(k))
    return None


def entry_paths(t):
    '''{rowid of the entry: (path, directories on the way)} for those that lead to the root'''
    up = {}
    for rid, (n, i, p) in t['contents'].items():
        up.setdefault(i, []).append((rid, n, p))
    paths = {}

    def dirpath(i, seen):
        if i == 1:
            return b'', frozenset()
        if i in seen or i not in up or len(up[i]) != 1:
            return None
        _rid, n, p = up[i][0]
        if n not in t['names'] or i not in t['inodes'] or not stat.S_ISDIR(t['inodes'][i][2]):
            return None
        above = dirpath(p, seen | {i})
        return None if above is None else (above[0] + b'/' + bytes(t['names'][n][0]),
                                           above[1] | {i})

    for rid, (n, i, p) in t['contents'].items():
        if n in t['names'] and p in t['inodes'] and i in t['inodes']:
            above = dirpath(p, frozenset())
            if above is not None:
                paths[rid] = above[0] + b'/' + bytes(t['names'][n][0]), above[1]
    return paths


# ---------------------------------------------------------------------- damage


def pick(con, sql, n):
    rows = con.execute(sql).fetchall()
    return rows[n % len(rows)][0] if rows else None


def apply_db(run, con, op):
    how, n = op['how'], op['n']
    rng = stream('c13', op['seed'])
    if how == 'del':
        t = op['table']
        k = pick(con, 'SELECT %s FROM %s ORDER BY 1' % (KEY[t], t), n)
        if k is None or (t == 'inodes' and k == 2):
            return False
        con.execute('DELETE FROM %s WHERE %s=?' % (t, KEY[t]), (k,))
        return 'del-%s' % t
    if how == 'set':
        t, col = op['table'], op['col']
        k = pick(con, 'SELECT %s FROM %s ORDER BY 1' % (KEY[t], t), n)
        if k is None or (t == 'inodes' and k == 2):
            return False
        val = value(con, t, col, k, op, rng)
        if val is ...:
            return False
        try:
            con.execute('UPDATE %s SET %s=? WHERE %s=?' % (t, col, KEY[t]), (val, k))
        except sqlite3.IntegrityError:
            return False
        return 'set-%s-%s' % (t, col)
    return add(con, op, rng)


def value(con, t, col, k, op, rng):
    gone = 10 ** 6 + rng.randrange(3)
    ids = lambda sql: [r[0] for r in con.execute(sql).fetchall()]  # noqa: E731
    ref = {('contents', 'name_id'): 'SELECT id FROM names',
           ('contents', 'inode'): 'SELECT id FROM inodes WHERE id>2 AND (mode & 61440) != 16384',
           ('contents', 'parent_inode'): 'SELECT id FROM inodes',
           ('inode_blocks', 'inode'): 'SELECT id FROM inodes',
           ('inode_blocks', 'obj_id'): 'SELECT id FROM objects',
           ('symlink_targets', 'inode'): 'SELECT id FROM inodes',
           ('ext_attributes', 'inode'): 'SELECT id FROM inodes',
           ('ext_attributes', 'name_id'): 'SELECT id FROM names'}.get((t, col))
    if ref:
        if op['val'] == 'missing':
            return gone
        if op['val'] == 'small':
            # the next id that would be handed out for a name; a removed inode
            top = ids(ref.replace('SELECT id', 'SELECT max(id)'))[0] or 0
            return top + 1 if 'names' in ref else gone
        c = sorted(ids(ref))
        return rng.choice(c) if c else ...
    if col == 'mode':
        perm = 0o644
        if op['val'] == 'missing':
            return perm
        return perm | rng.choice((stat.S_IFDIR, stat.S_IFREG, stat.S_IFLNK, stat.S_IFIFO))
    if col == 'hash':
        return None if op['val'] == 'missing' else rng.randbytes(32)
    if col == 'name':
        return rng.choice((b'other', b'x' * 250, b'\xff\xfe', b'f0', b'd0'))
    if col in ('target', 'value'):
        return rng.randbytes(rng.choice((0, 3, 40)))
    if col == 'phys_size':
        return -1
    if col == 'length':
        return rng.choice((0, 1, 500, 1024))
    if col == 'blockno':
        return rng.choice((0, 1, 2, 5, 100))
    if col == 'size':
        return rng.choice((0, 1, 1000, 1025, 5000, 10 ** 7))
    if col == 'locked':
        return rng.choice((0, 1))
    if col == 'refcount':
        return rng.choice((0, 0, 1, 2, 3, -1, 100))
    return rng.choice((0, 1, 7, 10 ** 9))


def add(con, op, rng):
    what, n = op['what'], op['n']
    now = 1_600_000_000 * 10 ** 9
    inode = pick(con, 'SELECT id FROM inodes WHERE id != 2 ORDER BY 1', n)
    name = pick(con, 'SELECT id FROM names ORDER BY 1', n)
    obj = pick(con, 'SELECT id FROM objects ORDER BY 1', n)
    gone = 10 ** 6 + 7
    try:
        if what in ('inode', 'dir'):
            con.execute('INSERT INTO inodes (uid, gid, mode, mtime_ns, atime_ns, ctime_ns, refcount) '
                        'VALUES (0,0,?,?,?,?,?)',
                        (stat.S_IFREG | 0o600 if what == 'inode' else stat.S_IFDIR | 0o700,
                         now, now, now, rng.choice((0, 1, 2))))
        elif what == 'name':
            con.execute('INSERT INTO names (name, refcount) VALUES (?,?)',
                        (b'unused', rng.choice((0, 1))))
        elif what == 'object':
            con.execute('INSERT INTO objects (hash, refcount, phys_size, length) VALUES (?,?,?,?)',
                        (rng.randbytes(32), rng.choice((0, 1)), rng.choice((-1, 10)), 10))
        elif what == 'nullhash':
            con.execute('INSERT INTO objects (hash, refcount, phys_size, length) VALUES (NULL,1,-1,5)')
        elif what == 'failed':
            # left behind by an upload that failed
            if obj is None:
                return False
            con.execute('UPDATE objects SET hash=NULL, phys_size=-1 WHERE id=?', (obj,))
        elif what == 'lofself':
            con.execute('UPDATE contents SET parent_inode=inode WHERE parent_inode=1 AND name_id='
                        "(SELECT id FROM names WHERE CAST(name AS BLOB)=CAST('lost+found' AS BLOB))")
        elif what == 'block':
            con.execute('INSERT INTO inode_blocks (inode, blockno, obj_id) VALUES (?,?,?)',
                        (rng.choice((inode, gone)), rng.choice((7, 8)), rng.choice((obj or gone, gone))))
        elif what == 'entry':
            con.execute('INSERT INTO contents (name_id, inode, parent_inode) VALUES (?,?,?)',
                        (rng.choice((name or gone, gone)), gone, rng.choice((inode, gone, 1))))
        elif what == 'xattr':
            con.execute('INSERT INTO ext_attributes (inode, name_id, value) VALUES (?,?,?)',
                        (rng.choice((inode, inode, gone)), rng.choice((name or gone, gone)), b'v'))
        else:
            con.execute('INSERT INTO symlink_targets (inode, target) VALUES (?,?)',
                        (rng.choice((inode, gone)), b'nowhere'))
    except sqlite3.IntegrityError:
        return False
    return 'add-' + what


def apply_store(run, op):
    if op['what'] == 'lose':
        ids = sorted(run.store.data_ids())
        if not ids:
            return False
        del run.store.objects['s3ql_data_%d' % ids[op['n'] % len(ids)]]
    else:
        # an object left over, or one that is none of ours
        some = [k for k in run.store.keys() if k.startswith('s3ql_data_')]
        src = run.store.objects[some[op['n'] % len(some)]] if some else run.store.objects['s3ql_params']
        key = 's3ql_data_%d' % (10 ** 5 + op['n']) if op['what'] == 'foreign' else 's3ql_data_x%d' % op['n']
        run.store.objects[key] = StoredObject(src.data, dict(src.meta), -1)
    return 'store-' + op['what']


def cache_files(run):
    db = tree.db_path(run)
    d = db[:-3] + '-cache'
    return d, sorted(os.listdir(d)) if os.path.isdir(d) else []


def apply_cache(run, op):
    d, files = cache_files(run)
    os.makedirs(d, exist_ok=True)
    what = op['what']
    rng = stream('c13', op['seed'])
    if what in ('lose', 'empty', 'block'):
        files = [f for f in files if not f.endswith('.tmp')]
        if not files:
            return False
        p = os.path.join(d, files[op['n'] % len(files)])
        if what == 'lose':
            os.unlink(p)
            return 'cache-lose'
        with open(p, 'wb') as fh:
            fh.write(b'' if what == 'empty' else rng.randbytes(700))
        return 'cache-' + what
    name = {'unknown': '1000123-1', 'tmp': '4-0.tmp', 'hole': '1000123-0'}[what]
    with open(os.path.join(d, name), 'wb') as fh:
        fh.write(b'' if what == 'hole' else b'q' * 100)
    return 'cache-' + what


# ---------------------------------------------------------------------- check


def intact(before, after, store0, run, files0):
    '''Inodes (with data and xattrs) that the damage has left alone, and entries'''
    ok = set()
    d, files = cache_files(run)
    cache = {f: open(os.path.join(d, f), 'rb').read() for f in files}
    touched = {int(f.split('-')[0]) for f in set(files0) | set(cache)
               if files0.get(f) != cache.get(f)}

    def blocks(t):
        out = {}
        for (i, b), o in t['inode_blocks'].items():
            out.setdefault(i, {})[b] = o
        return out

    import hashlib

    # blocks in the cache may turn out to be the same as an object
    rows0 = {r[0]: (k, r[3]) for k, r in before['objects'].items()}
    rows1 = {r[0]: (k, r[3]) for k, r in after['objects'].items()}
    for f, data in cache.items():
        h = hashlib.sha256(data).digest()
        if h in rows0 and rows1.get(h, rows0[h]) != rows0[h]:
            touched.add(int(f.split('-')[0]))
    b0, b1 = blocks(before), blocks(after)
    for i, r in before['inodes'].items():
        r1 = after['inodes'].get(i)
        if r1 is None or r[:6] + r[7:] != r1[:6] + r1[7:] or i in touched or i == 2:
            continue
        if b0.get(i, {}) != b1.get(i, {}):
            continue
        if before['symlink_targets'].get(i) != after['symlink_targets'].get(i):
            continue
        for o in b0.get(i, {}).values():
            x, y = before['objects'].get(o), after['objects'].get(o)
            key = 's3ql_data_%d' % o
            if y is None or x[0] != y[0] or x[3] != y[3]:
                break
            if x[0] is None and '%d-' % i not in ' '.join(cache):
                break
            if key in store0 and key not in run.store.objects:
                break
        else:
            ok.add(i)
    return ok


def check_after(run, before, damaged, files_ok, base, dump, t2):
    '''Nothing that was intact may be lost'''
    kids_of_file = {r[2] for r in t2['contents'].values()
                    if not stat.S_ISDIR(t2['inodes'][r[2]][2])}
    where = tree._paths(dump)
    for i in sorted(files_ok):
        if i not in base:
            continue
        r0, r1 = base[i], dump.get(i)
        if r1 is None:
            if kids_of_file:
                continue
            raise Violation('lost-file', 'inode %d is intact but cannot be found after fsck' % i)
        if (r0['data'], r0['target'], r0['mode'], r0['err']) != (
                r1['data'], r1['target'], r1['mode'], r1['err']):
            a, b = r0['data'] or b'', r1['data'] or b''
            k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            raise Violation('changed-file', 'inode %d was intact but has changed (%d bytes, now %d; '
                            'first difference at %d; errno %s)' % (i, len(a), len(b), k, r1['err']))
        for (ino, nid), v in damaged['ext_attributes'].items():
            if ino == i and before['ext_attributes'].get((ino, nid)) == v and \
                    nid in before['names'] and damaged['names'].get(nid, (0,))[0] == before['names'][nid][0]:
                n = bytes(before['names'][nid][0])
                if r1['xattrs'].get(n) != bytes(v):
                    raise Violation('lost-xattr', 'attribute %r of inode %d was intact' % (n, i))
        if i != 1 and not where.get(i):
            raise Violation('lost-file', 'inode %d is intact but has no name' % i)
    # a file keeps its entries in a directory that is intact itself, wherever that ends up
    rows2 = {(p, bytes(t2['names'][n][0])): i for n, i, p in t2['contents'].values()}
    for rid, (n, i, p) in damaged['contents'].items():
        if before['contents'].get(rid) != (n, i, p) or not {i, p} <= files_ok or i not in base \
                or stat.S_ISDIR(before['inodes'][i][2]) or before['names'].get(n, (0,))[0] != \
                damaged['names'].get(n, (1,))[0]:
            continue
        name = bytes(before['names'][n][0])
        if rows2.get((p, name)) != i:
            raise Violation('lost-name', 'entry %r of intact directory %d, for intact inode %d, is '
                            'gone after fsck' % (name, p, i))
    # a file that has lost data is in lost+found, under all its names
    lof = [i for n, i, p in t2['contents'].values()
           if p == 1 and bytes(t2['names'][n][0]) == b'lost+found']
    for i, b in sorted(set(damaged['inode_blocks']) - set(t2['inode_blocks'])):
        if i not in damaged['inodes'] or i not in t2['inodes'] or \
                stat.S_ISDIR(t2['inodes'][i][2]):
            continue
        for n, j, p in t2['contents'].values():
            if j == i and p not in lof:
                raise Violation('not-reported', 'inode %d has lost block %d, but is still found as '
                                '%r in directory %d' % (i, b, bytes(t2['names'][n][0]), p))
        run.stats['probes']['lost-data'] = run.stats['probes'].get('lost-data', 0) + 1
    p0, p1 = entry_paths(before), entry_paths(damaged)
    p2 = {}
    for rid, (p, _) in entry_paths(t2).items():
        p2.setdefault(p, set()).add(t2['contents'][rid][1])
    for rid, (p, way) in p1.items():
        i = damaged['contents'][rid][1]
        if p0.get(rid) != (p, way) or before['contents'][rid] != damaged['contents'][rid]:
            continue
        if i not in files_ok or p == b'/lost+found' or not way <= files_ok:
            continue
        if i not in p2.get(p, ()):
            raise Violation('lost-name', 'entry %r of intact inode %d is gone after fsck' % (p, i))


def reachable(t):
    kids = {}
    for n, i, p in t['contents'].values():
        kids.setdefault(p, []).append(i)
    seen, todo = {1}, [1]
    while todo:
        for i in kids.get(todo.pop(), ()):
            if i not in seen:
                seen.add(i)
                todo.append(i)
    lost = set(t['inodes']) - seen - {2}
    if lost:
        raise Violation('unreachable', 'inodes %s cannot be reached after fsck' % sorted(lost)[:5])


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        setup = list(plan['setup'])
        if plan['lof']:
            # rename lost+found away is refused, so: fill it
            setup += [{'op': 'create', 'path': 'lost+found/inode-5'},
                      {'op': 'create', 'path': 'lost+found/f0'},
                      {'op': 'create', 'path': 'lost+found/d0_f0'}]
        scen.work(run, [setup], 'setup', lat=[0.0])
        crashed = False
        res = run.mount(plan['clients'], crash=plan['crash'], salt='work')
        scen.expect_rc(res, 'mount')
        if plan['crash'] and res.snaps and res.snaps[0]:
            run.enter_snapshot(res.snaps[0])
            if run.model.inodes is None:
                return run.stats
            crashed = True
        # the reference: what a repair without further damage gives
        db = tree.db_path(run)
        if db is None:
            return run.stats
        machine = run.machine
        keep = run.save()
        copy_machine(run, machine, 'ref')
        run.machine = 'ref'
        if crashed:
            r = run.fsck(extra=('--batch', '--force'), lat=[0.0], salt='ref')
            scen.expect_rc(r, 'fsck.s3ql', scen.FSCK_OK)
        base = scen.read_back(run, salt='refm')
        run.load(keep)
        run.machine = machine
        hurt(run, plan, crashed, base)
        return run.stats
    finally:
        run.close()


def copy_machine(run, src, dst):
    import shutil

    a, b = run.cachedir(src), os.path.join(run.dir, 'cache-' + dst)
    shutil.rmtree(b, ignore_errors=True)
    shutil.copytree(a, b)


def hurt(run, plan, crashed, base):
    db = tree.db_path(run)
    before = tables(db)
    store0 = set(run.store.keys())
    d, files = cache_files(run)
    files0 = {f: open(os.path.join(d, f), 'rb').read() for f in files}
    done = []
    from s3ql.database import read_cached_params, write_params

    local = read_cached_params(db[:-3])
    if local is not None and not local.is_mounted:
        # the changes below are not tracked for the upload of the metadata
        local.needs_fsck = True
        write_params(db[:-3], local)
    mounted = crashed and local is not None and local.is_mounted
    con = sqlite3.connect(db)
    try:
        for op in plan['damage']:
            if op['how'] == 'store':
                what = apply_store(run, op)
            elif op['how'] == 'cache':
                what = apply_cache(run, op) if mounted else False
            else:
                what = apply_db(run, con, op)
            if what:
                done.append(what)
                run.stats['fired'][what] = run.stats['fired'].get(what, 0) + 1
        con.commit()
    finally:
        con.close()
    damaged = tables(db)
    ok = intact(before, damaged, store0, run, files0)
    store1 = {k: v.data for k, v in run.store.objects.items() if k.startswith('s3ql_data')}
    dirty = cache_files(run)[1] if crashed else []
    nested = plan['nested']
    try:
        res = run.fsck(extra=('--batch', '--force'), lat=[0.0], salt='fsck', crash=nested)
        judge(run, plan, res, before, damaged, ok, base, store1, dirty, '')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            r = run.fsck(extra=('--batch', '--force'), lat=[0.0], salt='again%d' % snap['id'])
            judge(run, plan, r, before, damaged, ok, base, None, None, 'n%d' % snap['id'])
    except Violation as v:
        v.info['damage'] = ', '.join(done)
        raise


def judge(run, plan, res, before, damaged, ok, base, store1, dirty, salt):
    scen.expect_rc(res, 'fsck.s3ql', scen.FSCK_OK)
    db = tree.db_path(run)
    t2 = tables(db)
    unix = unix_problems(t2)
    tree.check_tables(db, run.store, clean=True, blocksize=run.cfg['block'] * 1024, unix=False)
    reachable(t2)
    if store1 is not None:
        store2 = {k: v.data for k, v in run.store.objects.items() if k.startswith('s3ql_data')}
        change = diff(comparable(damaged), comparable(t2))
        if not change and store1 != store2:
            gone = sorted(set(store1) ^ set(store2))
            rows = ['s3ql_data_%d' % k for k, v in damaged['objects'].items() if v[1] == 0]
            if set(gone) - set(rows):
                change = 'objects %s' % gone[:5]
        if res.rc == 0 and change:
            raise Violation('not-reported', 'fsck.s3ql exits with 0 but has changed %s' % change)
        if res.rc == 128 and not unix and not dirty and not diff(damaged, t2) and (
                store1 == store2):
            raise Violation('false-report', 'fsck.s3ql reports errors but has corrected nothing: '
                            + scen.warnings(res))
        if res.rc == 128:
            run.stats['probes']['repaired'] = run.stats['probes'].get('repaired', 0) + 1
    r2 = run.fsck(extra=('--batch', '--force'), lat=[0.0], salt='second' + salt)
    if r2.rc != (128 if unix else 0):
        raise Violation('not-repaired', 'a second fsck.s3ql exits with %s: %s'
                        % (r2.rc, scen.warnings(r2)))
    change = diff(t2, tables(db))
    if change:
        raise Violation('not-repaired', 'a second fsck.s3ql has changed %s' % change)
    if len([x for x in before['inodes'] if x in ok]) == 0:
        return
    # a symlink without target etc. must not keep the rest from being used
    dump = scen.read_back(run, salt='after' + salt, kcfg={'unix_ok': True} if unix else {})
    run.stats['probes']['intact'] = run.stats['probes'].get('intact', 0) + len(ok)
    check_after(run, before, damaged, ok - unix, base, dump, t2)
