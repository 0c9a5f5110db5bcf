'''Reading back a whole mounted tree, comparing it with the model, and checking the metadata tables.'''

import errno
import hashlib
import os
import stat

import pyfuse3
import trio

from .core import Violation
from .model import ROOT, Children, MInode, Mod, Model

LF = b'lost+found'
LF_INO = 3


def initial_model(now=None):
    m = Model()
    now = now or (0, 1 << 62)
    lf = MInode(LF_INO, stat.S_IFDIR | 0o700, os.getuid(), os.getgid(), now)
    lf.parent = ROOT
    m.inodes[LF_INO] = lf
    m.root.children[LF] = LF_INO
    return m


async def dump_tree(k, root=ROOT, read=True):
    '''Read everything through the file system interface; returns {ino: dict}'''
    call = k.call
    out = {}
    ctx = k.ctx

    async def info(ino, attr, deep=True):
        rec = out.get(ino)
        if rec is not None:
            return rec
        rec = out[ino] = {
            'mode': attr.st_mode, 'uid': attr.st_uid, 'gid': attr.st_gid, 'size': attr.st_size,
            'nlink': attr.st_nlink, 'rdev': attr.st_rdev, 'mtime': attr.st_mtime_ns,
            'ctime': attr.st_ctime_ns, 'target': None, 'xattrs': {}, 'data': None,
            'children': None, 'err': None,
        }
        for n in await call('listxattr', ino, ctx):
            rec['xattrs'][bytes(n)] = bytes(await call('getxattr', ino, bytes(n), ctx))
        if stat.S_ISLNK(attr.st_mode):
            try:
                rec['target'] = bytes(await call('readlink', ino, ctx))
            except pyfuse3.FUSEError as exc:  # no target recorded
                if exc.errno != errno.EINVAL:
                    raise
        elif stat.S_ISREG(attr.st_mode) and read:
            fi = await call('open', ino, os.O_RDONLY, ctx)
            buf = bytearray()
            off = 0
            blk = k.cfg.get('read_chunk', 4096)
            while off < attr.st_size:
                try:
                    got = await call('read', fi.fh, off, min(blk, attr.st_size - off))
                except pyfuse3.FUSEError as exc:
                    rec['err'] = exc.errno
                    rec.setdefault('bad', []).append((off, min(off + blk, attr.st_size)))
                    got = b'\0' * min(blk, attr.st_size - off)
                if not got:
                    break
                buf += got
                off += len(got)
            await call('release', fi.fh)
            rec['data'] = bytes(buf)
        elif stat.S_ISDIR(attr.st_mode):
            rec['children'] = {}
        return rec

    class Tok:
        def __init__(self):
            self.got = []

        def reply(self, name, attr, nxt):
            if len(self.got) >= 20:
                return False
            self.got.append((name, attr, nxt))
            return True

    depth = 0

    async def walk(ino, attr, depth):
        rec = await info(ino, attr)
        if rec['children'] is None:
            return
        if depth > 60:
            k.bad('tree', 'directory tree deeper than 60: loop?')
        fh = await call('opendir', ino, ctx)
        off = 0
        seen = []
        while True:
            t = Tok()
            await call('readdir', fh, off, t)
            if not t.got:
                break
            for name, a, off in t.got:
                if name in rec['children']:
                    k.bad('tree', 'entry %r listed twice in inode %d' % (name, ino))
                rec['children'][name] = a.st_ino
                seen.append((name, a))
        await call('releasedir', fh)
        for name, a in seen:
            a2 = await call('lookup', ino, name, ctx)
            if a2.st_ino != a.st_ino:
                k.bad('tree', 'lookup of %r in %d gives %d, readdir gives %d'
                      % (name, ino, a2.st_ino, a.st_ino))
            if stat.S_ISDIR(a.st_mode) and a.st_ino in out:
                k.bad('tree', 'directory inode %d has two names' % a.st_ino)
            await walk(a.st_ino, a2, depth + 1)
            await call('forget', [(a.st_ino, 2)])

    attr = await call('getattr', root, ctx)
    await walk(root, attr, 0)
    return out


def model_from_dump(dump):
    m = Model()
    m.inodes.clear()
    for ino, r in dump.items():
        i = MInode(ino, r['mode'], r['uid'], r['gid'], (r['mtime'], r['mtime']), r['rdev'],
                   r['target'])
        i.ctime = (r['ctime'], r['ctime'])
        i.xattrs = dict(r['xattrs'])
        if r['data'] is not None:
            i.data = bytearray(r['data'])
            if r['err']:
                i.lost = i.loose = True
        if r['children'] is not None:
            i.children = Children(r['children'])
        i.nlink = 0
        i.size_hist = [len(i.data)]
        m.inodes[ino] = i
    m.inodes[ROOT].nlink = 1
    for i in list(m.inodes.values()):
        if i.children is not None:
            for c in i.children.values():
                ci = m.inodes[c]
                ci.nlink += 1
                if ci.is_dir():
                    ci.parent = i.ino
    return m


def _paths(dump):
    '''ino -> list of (dir, name)'''
    where = {}
    for d, r in dump.items():
        if r['children'] is not None:
            for n, i in r['children'].items():
                where.setdefault(i, []).append((d, n))
    return where


def compare_exact(model, dump, cls='mismatch', times=True):
    '''The dump must equal the model'''
    for ino, m in model.inodes.items():
        if m.nlink == 0 and ino != ROOT:
            continue
        if m.loose:
            continue
        r = dump.get(ino)
        if r is None:
            raise Violation(cls, 'inode %d has vanished' % ino)
        _check_inode(m, r, cls, exact=True, times=times)
        if m.children is not None and m.children != r['children']:
            raise Violation(cls, 'directory %d holds %s, expected %s' % (
                ino, _ents(r['children']), _ents(m.children)))
    where = _paths(dump)
    for ino in dump:
        m = model.inodes.get(ino)
        if m is None and _under_loose(model, dump, where, ino):
            continue
        if m is None or (m.nlink == 0 and ino != ROOT and not m.loose):
            raise Violation(cls, 'inode %d appeared' % ino)


def _ents(c):
    return {n.decode('latin1'): i for n, i in sorted(c.items())}


def crash_sizes(m):
    '''Sizes a file may have after a crash'''
    alts = []
    for x in list(m.maybe) + list(m.mods):
        y = Mod(x.kind, x.off, x.data, x.size)
        y.failed = True
        alts.append(y)
    wext = m.wext
    out = set()
    for s in set(m.size_hist) | {wext, len(m.data)}:
        # twice, as they may have been executed in any order
        out |= MInode.sizes(s, alts * 2)
    # a block created, but not written yet, sets the size to the start of the block
    out |= set(range(0, max(out) + 1, 1024))
    lo = min([wext] + [x.size // 1024 * 1024 for x in alts if x.kind == 't'])
    return {s for s in out if s >= lo}, alts


def _check_inode(m, r, cls, exact, times=False, attr_alts=(), xattr_alts=(), size_free=False):
    ino = m.ino
    if stat.S_IFMT(r['mode']) != stat.S_IFMT(m.mode):
        raise Violation(cls, 'inode %d has changed its type' % ino)
    got = (r['mode'], r['uid'], r['gid'])
    allowed = {m.attr_tuple()} if exact else {*m.attr_hist, m.attr_tuple(), *attr_alts}
    if got not in allowed:
        raise Violation(cls, 'inode %d: mode/uid/gid %o/%d/%d, expected %s'
                        % (ino, *got, sorted(allowed)))
    if r['rdev'] != m.rdev:
        raise Violation(cls, 'inode %d: rdev %d, expected %d' % (ino, r['rdev'], m.rdev))
    if m.target is not None and r['target'] != m.target:
        raise Violation(cls, 'symlink %d: target %r, expected %r' % (ino, r['target'], m.target))
    # extended attributes
    names = set(m.xattrs) | set(r['xattrs'])
    for n in names:
        ok = {m.xattrs.get(n)} | {v for nn, v in xattr_alts if nn == n}
        if r['xattrs'].get(n) not in ok:
            raise Violation(cls, 'inode %d: extended attribute %r is %r, expected %r'
                            % (ino, n, r['xattrs'].get(n), sorted(ok, key=repr)))
    if m.is_reg():
        if r['data'] is None:
            return
        if r['err'] and not m.lost:
            raise Violation('eio', 'inode %d: errno %d when reading %s'
                            % (ino, r['err'], r.get('bad')))
        if exact:
            alts = list(m.maybe)
            sizes = MInode.sizes(len(m.data), alts)
        else:
            sizes, alts = crash_sizes(m)
        if r['size'] not in sizes and not size_free:
            raise Violation(cls, 'inode %d: size %d, expected %s (written up to %d)'
                            % (ino, r['size'], sorted(sizes)[:10], m.wext))
        if len(r['data']) != r['size']:
            raise Violation(cls, 'inode %d: size %d but %d bytes read'
                            % (ino, r['size'], len(r['data'])))
        if not m.lost:
            pos = MInode.check_bytes(bytes(m.data), alts, 0, r['data'])
            if pos is not None:
                raise Violation('data-loss' if not exact else cls,
                                'inode %d: byte %d reads %d, expected %s (alternatives %s)'
                                % (ino, pos, r['data'][pos],
                                   m.data[pos] if pos < len(m.data) else 0, alts))
    if exact and times and not m.maybe:
        lo, hi = m.mtime
        if not lo - 2000 <= r['mtime'] <= hi + 2000:
            raise Violation(cls, 'inode %d: mtime %d not in [%d, %d]' % (ino, r['mtime'], lo, hi))


def compare_crash(model, dump):
    '''After a crash with a surviving cache directory and fsck'''
    cls = 'crash-loss'
    where = _paths(dump)
    acc = {}
    new_ok = False
    touched = set()
    attr_alts, xattr_alts = {}, {}
    ren = []
    copying = False
    for rec in model.inflight.values():
        if rec['kind'] == 'rmtree':
            partly_removed(model, rec)
        elif rec['kind'] == 'cp':
            copying = new_ok = True
        for d, n, s in rec['entries']:
            acc.setdefault((d, n), set()).update(s)
            if 'new' in s:
                new_ok = True
        for m in rec['inos']:
            touched.add(m.ino)
            if 'attr' in rec:
                attr_alts.setdefault(m.ino, set()).add(rec['attr'])
            if 'xattr' in rec:
                xattr_alts.setdefault(m.ino, set()).add(rec['xattr'])
        if rec['kind'] == 'rename':
            ren.append(rec)
    lf = dump[ROOT]['children'].get(LF)
    lf_children = dump[lf]['children'] if lf is not None else {}
    if lf is None:
        raise Violation(cls, 'lost+found is missing')
    unknown_ok = set()
    # entries
    for ino, m in model.inodes.items():
        if m.children is None or m.loose or (m.nlink == 0 and ino != ROOT):
            continue
        r = dump.get(ino)
        if r is None:
            if ino in touched:
                # an rmdir in flight
                continue
            raise Violation(cls, 'directory inode %d has vanished' % ino)
        names = set(m.children) | set(r['children'])
        for n in names:
            want = {m.children.get(n)} | acc.get((ino, n), set())
            got = r['children'].get(n)
            if got in want:
                continue
            if 'new' in want and got is not None and got not in model.inodes:
                unknown_ok.add(got)
                continue
            if ino == lf and n not in m.children:
                gm = model.inodes.get(got)
                if gm is None:
                    if new_ok or got in model.zombies:
                        unknown_ok.add(got)
                        continue
                elif got in touched or gm.nlink == 0:
                    continue
                elif gm.loose:
                    continue
                raise Violation('lost+found', 'entry %r (inode %d) appeared in lost+found'
                                % (n, got))
            gm = model.inodes.get(got) if got is not None else None
            if gm is not None and gm.loose:
                continue
            raise Violation(cls, 'entry %r of directory %d is inode %s, expected %s'
                            % (n, ino, got, sorted(map(str, want))))
    for ino, r in dump.items():
        m = model.inodes.get(ino)
        if m is None:
            if copying and _below(dump, where, ino, unknown_ok):
                continue
            if ino in unknown_ok or _under_loose(model, dump, where, ino):
                if stat.S_ISREG(r['mode']) and (r['size'] or r['err']) and ino in unknown_ok \
                        and ino not in model.zombies:
                    raise Violation(cls, 'new inode %d has size %d' % (ino, r['size']))
                continue
            raise Violation(cls, 'inode %d appeared' % ino)
        if m.loose:
            continue
        if not m.is_dir() and (m.nlink == 0 or ino in touched and _may_vanish(model, ino)) and all(
            d == lf for d, _n in where.get(ino, ())
        ):
            # deleted, but still in use at the crash: its blocks may be gone already
            continue
        _check_inode(m, r, cls, exact=False, attr_alts=attr_alts.get(ino, ()),
                     xattr_alts=xattr_alts.get(ino, ()))
        if not m.is_dir() and r['nlink'] != len(where.get(ino, ())):
            raise Violation(cls, 'inode %d: link count %d but %d names'
                            % (ino, r['nlink'], len(where.get(ino, ()))))
    for ino, m in model.inodes.items():
        if ino in dump or m.nlink == 0 or m.loose:
            continue
        if ino in touched and _may_vanish(model, ino):
            continue
        raise Violation(cls, 'inode %d has vanished' % ino)


def partly_removed(model, rec):
    '''The tree was being removed: anything below may be gone'''
    inside = {m.ino: m for m in rec['inos'][:-1]}
    names = {}
    for m in inside.values():
        for c in (m.children or {}).values():
            names[c] = names.get(c, 0) + 1
    top = rec['top']
    names[top] = names.get(top, 0) + 1
    for m in inside.values():
        if m.is_dir() or m.nlink <= names.get(m.ino, 0):
            m.loose = True


def _below(dump, where, ino, tops, depth=0):
    '''True if *ino* is one of *tops* or below one'''
    if ino in tops:
        return True
    if depth > 50:
        return False
    return any(_below(dump, where, d, tops, depth + 1) for d, _n in where.get(ino, ()))


def _may_vanish(model, ino):
    for rec in model.inflight.values():
        if rec['kind'] in ('unlink', 'rmdir'):
            if any(m.ino == ino for m in rec['inos']):
                return True
        if rec['kind'] == 'rename':
            # the replaced target may be gone
            d, n, s = rec['entries'][1]
            src = next(iter(x for x in rec['entries'][0][2] if x))
            if ino in s and ino != src:
                return True
    return False


def _under_loose(model, dump, where, ino, depth=0):
    if depth > 50:
        return False
    for d, _n in where.get(ino, ()):
        m = model.inodes.get(d)
        if m is not None and m.loose:
            return True
        if m is None and _under_loose(model, dump, where, d, depth + 1):
            return True
    return False


# ---------------------------------------------------------------------- tables


def open_db(path):
    import sqlite3

    return sqlite3.connect('file:%s?mode=ro' % path, uri=True)


def check_tables(db_path, store, clean=True, blocksize=None, allow_lost=(), unix=True):
    '''Invariants of the metadata tables and their agreement with the storage service.

    *clean*: after a clean unmount, when nothing may be in transit.
    '''
    con = open_db(db_path)
    q = lambda sql: con.execute(sql).fetchall()  # noqa: E731
    cls = 'metadata'

    def bad(msg):
        raise Violation(cls, msg)

    try:
        objs = {r[0]: r[1:] for r in q('SELECT id, hash, refcount, phys_size, length FROM objects')}
        blocks = q('SELECT inode, blockno, obj_id FROM inode_blocks')
        inodes = {r[0]: r[1:] for r in q('SELECT id, mode, refcount, size FROM inodes')}
        names = {r[0]: (bytes(r[1]) if not isinstance(r[1], str) else r[1].encode(), r[2])
                 for r in q('SELECT id, name, refcount FROM names')}
        contents = q('SELECT name_id, inode, parent_inode FROM contents')
        xattrs = q('SELECT inode, name_id FROM ext_attributes')
        links = {r[0]: len(r[1]) for r in q('SELECT inode, target FROM symlink_targets')}
    finally:
        con.close()
    refs = {}
    for ino, bno, oid in blocks:
        refs[oid] = refs.get(oid, 0) + 1
        if oid not in objs:
            bad('block %d of inode %d refers to object %d, which has no row' % (bno, ino, oid))
        if ino not in inodes:
            bad('block %d of inode %d, which does not exist' % (bno, ino))
        if blocksize and clean:
            if bno * blocksize + objs[oid][3] > inodes[ino][2]:
                bad('inode %d has size %d but block %d of length %d'
                    % (ino, inodes[ino][2], bno, objs[oid][3]))
    stored = set(store.data_ids())
    for oid, (h, rc, ps, ln) in objs.items():
        if rc != refs.get(oid, 0):
            bad('object %d: reference count %d, but %d blocks refer to it'
                % (oid, rc, refs.get(oid, 0)))
        if rc == 0:
            bad('object %d is not referenced' % oid)
        if clean:
            if oid not in stored and oid not in allow_lost:
                bad('object %d is referenced but not stored' % oid)
            if h is None and oid not in allow_lost:
                bad('object %d has no hash after a clean unmount' % oid)
            if oid in stored and ps != len(store.objects['s3ql_data_%d' % oid].data) \
                    and oid not in allow_lost:
                bad('object %d: size %d recorded, %d stored'
                    % (oid, ps, len(store.objects['s3ql_data_%d' % oid].data)))
    if clean:
        extra = stored - set(objs)
        if extra:
            bad('objects %s are stored but not referenced' % sorted(extra)[:10])
    hashes = [v[0] for v in objs.values() if v[0] is not None]
    if len(set(hashes)) != len(hashes):
        bad('two objects with the same content')
    nrefs = {}
    ents = {}
    seen = set()
    for nid, ino, p in contents:
        nrefs[nid] = nrefs.get(nid, 0) + 1
        ents[ino] = ents.get(ino, 0) + 1
        if ino not in inodes or p not in inodes:
            bad('entry %d/%d refers to a missing inode' % (p, ino))
        if (nid, p) in seen:
            bad('two entries with the same name in directory %d' % p)
        seen.add((nid, p))
    for ino, nid in xattrs:
        nrefs[nid] = nrefs.get(nid, 0) + 1
        if ino not in inodes:
            bad('extended attribute of missing inode %d' % ino)
    for nid, (name, rc) in names.items():
        if rc != nrefs.get(nid, 0):
            bad('name %r: reference count %d, but %d uses' % (name, rc, nrefs.get(nid, 0)))
    for nid in nrefs:
        if nid not in names:
            bad('name %d does not exist' % nid)
    vals = [v[0] for v in names.values()]
    if len(set(vals)) != len(vals):
        bad('a name is stored twice')
    for ino, (mode, rc, size) in inodes.items():
        if ino in (1, 2):
            continue
        if ents.get(ino, 0) != rc:
            bad('inode %d: reference count %d, but %d entries' % (ino, rc, ents.get(ino, 0)))
        if clean and rc == 0:
            bad('inode %d has no entry' % ino)
        if stat.S_ISLNK(mode) and unix:
            if links.get(ino) != size:
                bad('symlink %d: size %s, target length %s' % (ino, size, links.get(ino)))
    return {'objects': len(objs), 'blocks': len(blocks), 'inodes': len(inodes),
            'shared': sum(1 for v in objs.values() if v[1] > 1)}


def db_path(run):
    d = run.cachedir()
    for n in sorted(os.listdir(d)):
        if n.endswith('.db'):
            return os.path.join(d, n)
    return None


def db_namespace(path):
    '''The namespace recorded in a metadata database: {inode: (children, xattrs, target)}'''
    con = open_db(path)
    q = lambda sql: con.execute(sql).fetchall()  # noqa: E731
    b = lambda x: x.encode() if isinstance(x, str) else bytes(x)  # noqa: E731
    try:
        names = {i: b(n) for i, n in q('SELECT id, name FROM names')}
        out = {i: [{} if stat.S_ISDIR(m) else None, {}, None]
               for i, m in q('SELECT id, mode FROM inodes')}
        for nid, ino, p in q('SELECT name_id, inode, parent_inode FROM contents'):
            if p in out and out[p][0] is not None:
                out[p][0][names.get(nid)] = ino
        for ino, nid, v in q('SELECT inode, name_id, value FROM ext_attributes'):
            out[ino][1][names.get(nid)] = b(v)
        for ino, t in q('SELECT inode, target FROM symlink_targets'):
            out[ino][2] = b(t)
    finally:
        con.close()
    return out


def dump_namespace(dump):
    return {i: [r['children'], r['xattrs'], r['target']] for i, r in dump.items()}


def match_instant(hist, lo, hi, ns):
    '''Does *ns* show the namespace at one instant between history entries lo and hi?

    Returns None, or the reason why the best candidate does not match.'''
    best = None
    for i in range(max(0, lo), min(hi, len(hist) - 1) + 1):
        why = _instant_diff(hist[i], hist[min(i + 1, len(hist) - 1)], ns)
        if not why:
            return None
        if best is None or len(why) < len(best[1]):
            best = (i, why)
    if best is None:
        return 'no history'
    return 'closest to state %d of [%d, %d]: %s' % (best[0], lo, hi, '; '.join(best[1][:4]))


def _instant_diff(a, b, ns):
    why = []
    for ino in set(a) | set(b):
        ra, rb, r = a.get(ino), b.get(ino), ns.get(ino)
        if r is None:
            if ra is not None and rb is not None:
                why.append('inode %d missing' % ino)
            continue
        refs = [x for x in (ra, rb) if x is not None]
        ents = [dict(x[0]) if x[0] is not None else None for x in refs]
        if ents[0] is not None:
            for n in set().union(*ents) | set(r[0] or ()):
                got = (r[0] or {}).get(n)
                if got not in [e.get(n) for e in ents]:
                    if ino == LF_INO and got is not None:
                        continue
                    if len(refs) == 1 and got is None:
                        continue
                    why.append('entry %r of %d is %s' % (n, ino, got))
        xs = [dict(x[1]) for x in refs]
        for n in set().union(*xs) | set(r[1]):
            if r[1].get(n) not in [x.get(n) for x in xs] and not (
                    len(refs) == 1 and r[1].get(n) is None):
                why.append('attribute %r of %d' % (n, ino))
        if r[2] != refs[0][2] and not (len(refs) == 1 and r[2] is None):
            why.append('target of %d' % ino)
    return why
