'''A small simulated kernel: VFS locking, dentry cache, lookup counts, and client operations.

It talks to the real `s3ql.fs.Operations` object exactly like pyfuse3 does and checks each answer
against the reference model.
'''

import errno
import os
import stat
import types

import pyfuse3
import trio

from .core import Violation
from .model import ROOT, MInode, Mod, content
from .tools import ToolOps
from .treeops import TreeOps

LF = b'lost+found'


class Fields:
    def __init__(self, **kw):
        for f in ('mode', 'uid', 'gid', 'size', 'atime', 'mtime', 'ctime'):
            setattr(self, 'update_' + f, kw.get(f, False))


class KInode:
    __slots__ = ('id', 'nlookup', 'opens', 'busy', 'dentries', 'children', 'lock', 'writers', 'mode')

    def __init__(self, id_, mode):
        self.id = id_
        self.nlookup = 0
        self.opens = 0
        self.busy = 0
        self.dentries = set()  # (parent id, name)
        self.children = {}  # name -> (KInode, time)
        self.lock = trio.Lock()
        self.writers = []
        self.mode = mode


class Fatal(Exception):
    '''A request handler raised something that is not a FUSEError'''


class Kernel(TreeOps, ToolOps):
    Fatal = Fatal

    def __init__(self, sim, model, ops, cfg):
        self.sim = sim
        self.model = model
        self.ops = ops
        self.cfg = cfg
        self.ctx = types.SimpleNamespace(uid=cfg.get('uid', 1000), gid=cfg.get('gid', 1000), pid=7,
                                         umask=0o022)
        self.root = KInode(ROOT, stat.S_IFDIR | 0o755)
        self.root.nlookup = 1
        self.inodes = {ROOT: self.root}
        self.rename_lock = trio.Lock()
        self.nursery = None
        self.fds = {}
        self.opid = 0
        self.fatal = None
        self.failsafe_ok = cfg.get('failsafe_ok', False)
        self.eio_ok = cfg.get('eio_ok', False)
        self.errors = []  # errno results that the damage rules allow
        self.pending_ops = {}
        self.tasks_done = 0
        self.writeback = cfg.get('writeback', False)
        self.tree_op = 0  # number of tree operations (rmtree, copy, lock) in progress
        self.removing = {}  # entries that s3qlrm is removing
        self.locking = 0  # lock commands in progress
        self.lock_gen = 0  # lock commands completed
        self.notify_pending = 0
        self.rm_notempty = self.copies_checked = self.copies_weak = self.copies_full = 0
        self.copied_files = self.refused = 0
        self.ctrl_lock = trio.Lock()
        self.max_latency = 0.0
        self.reaper_pending = 0
        self.forgets = {}  # inode -> FORGET requests in flight
        self.results = []
        self.eio_seen = False
        self.after_call = cfg.get('after_call')
        self.bad_objects = set(cfg.get('bad_objects', ()))  # damaged storage objects
        self.bad_weak = cfg.get('bad_weak', False)  # the damage may be undetectable
        self.damaged = set()  # inodes that use or used one
        self.tools_init()

    # ------------------------------------------------------------------ plumbing

    def bad(self, cls, msg, **info):
        self.sim.abort(Violation(cls, msg, **info))

    async def call(self, name, *args):
        '''One FUSE request'''
        sim = self.sim
        self.opid += 1
        n = self.opid
        t0 = sim.elapsed()
        refuse = self.eio_seen and self.modifies(name, args)
        self.pending_ops[n] = (name, t0)
        sim.ev('fuse', name, *[a for a in args if isinstance(a, (int, bytes)) and a != self.ctx])
        err = None
        self.note_damage()
        try:
            res = await getattr(self.ops, name)(*args)
        except pyfuse3.FUSEError as exc:
            err = exc.errno
            if err == errno.EIO:
                self.eio_seen = True
                if not self.ops.failsafe:
                    self.bad('failsafe', '%s answered EIO, but the file system stays writable'
                             % name)
            raise
        except trio.Cancelled:
            err = 'cancelled'
            raise
        except Exception as exc:
            err = repr(exc)
            if self.fatal is None:
                self.fatal = (name, exc)
            raise Fatal() from exc
        finally:
            self.pending_ops.pop(n, None)
            sim.ev('fuse-', name, err)
            lat = sim.elapsed() - t0
            if lat > self.max_latency:
                self.max_latency = lat
            self.note_damage()
            if self.after_call is not None and err != 'cancelled':
                self.after_call(self, name, args, err)
        if refuse:
            self.bad('failsafe', '%s succeeded although the file system is in safe mode' % name)
        return res

    MODIFY = {'create', 'mkdir', 'symlink', 'mknod', 'unlink', 'rmdir', 'rename', 'link', 'setattr',
              'setxattr', 'removexattr', 'write'}

    def modifies(self, name, args):
        from s3ql import CTRL_INODE

        if name == 'open':
            return bool(args[1] & os.O_TRUNC)
        return name in self.MODIFY and args[0] != CTRL_INODE

    def note_damage(self):
        '''Remember which inodes have ever referred to a damaged object'''
        if self.bad_objects:
            sql = 'SELECT DISTINCT inode FROM inode_blocks WHERE obj_id IN (%s)' % (
                ','.join(str(i) for i in sorted(self.bad_objects)))
            for (ino,) in self.ops.db.query(sql):
                self.damaged.add(ino)
                if self.bad_weak and ino in self.model.inodes:
                    self.model.inodes[ino].loose = True

    def get(self, attr):
        '''KInode for an entry reply (takes a lookup reference)'''
        ki = self.inodes.get(attr.st_ino)
        if ki is None:
            ki = self.inodes[attr.st_ino] = KInode(attr.st_ino, attr.st_mode)
        ki.nlookup += 1
        return ki

    def d_add(self, parent, name, ki):
        old = parent.children.get(name)
        if old is not None:
            if old[0] is ki:
                parent.children[name] = (ki, self.sim.elapsed())
                return
            ki.busy += 1
            self.d_drop(parent, name)
            ki.busy -= 1
        parent.children[name] = (ki, self.sim.elapsed())
        ki.dentries.add((parent.id, name))

    def d_drop(self, parent, name):
        ent = parent.children.pop(name, None)
        if ent is not None:
            ki = ent[0]
            ki.dentries.discard((parent.id, name))
            # children of a dropped directory go as well
            for n in list(ki.children):
                self.d_drop(ki, n)
            self.put(ki)

    def put(self, ki):
        '''Forget the inode when nothing refers to it any more'''
        if ki.id == ROOT or ki.busy or ki.opens or ki.dentries or ki.children:
            return
        if self.inodes.get(ki.id) is not ki:
            return
        del self.inodes[ki.id]
        n = ki.nlookup
        ki.nlookup = 0
        if n:
            self.reaper_pending += 1
            self.forgets[ki.id] = self.forgets.get(ki.id, 0) + 1
            self.nursery.start_soon(self._forget, [(ki.id, n)])

    async def _forget(self, lst):
        try:
            with trio.CancelScope(shield=True) if False else trio.CancelScope():
                await self.sim.pause(self.sim.rng_client, self.cfg['forget_delay'])
                await self.call('forget', lst)
                for ino, _n in lst:
                    self.forgets[ino] -= 1
                    if ino not in self.inodes and not self.forgets[ino]:
                        self.model.zombies.discard(ino)
        except Fatal:
            self.stop_event.set()
        finally:
            self.reaper_pending -= 1

    class _Use:
        def __init__(self, k, ki):
            self.k, self.ki = k, ki

        def __enter__(self):
            self.ki.busy += 1
            return self.ki

        def __exit__(self, *a):
            self.ki.busy -= 1
            self.k.put(self.ki)

    def use(self, ki):
        return self._Use(self, ki)

    def now(self):
        return self.sim.peek_ns()

    # ------------------------------------------------------------------ path walking

    def loose(self, m, name=None):
        '''True if a tree operation without kernel locks may be changing this directory (entry)'''
        return m is None or m.loose or (m.ino, name) in self.removing

    def overtaken(self, pm, name):
        '''An entry is created whose predecessor has just been removed by s3qlrm'''
        if pm is None or (pm.ino, name) not in self.removing:
            return
        old = self.model.inodes.get(pm.children.pop(name, None))
        if old is not None:
            old.nlink = 0 if old.is_dir() else old.nlink - 1
            old.mod_seq = self.model.next()

    async def lookup_locked(self, parent, name):
        '''Look *name* up in *parent* (whose lock is held). Return KInode or None.'''
        m = self.model.inodes.get(parent.id)
        if m is not None and m.loose:
            m.peeked = True
        ent = parent.children.get(name)
        if ent is not None:
            if self.sim.elapsed() - ent[1] < 3600:
                return ent[0]
            self.d_drop(parent, name)
        try:
            attr = await self.call('lookup', parent.id, name, self.ctx)
        except pyfuse3.FUSEError as exc:
            if exc.errno != errno.ENOENT:
                self.bad('posix', 'lookup of %r gave errno %d' % (name, exc.errno))
            if not self.loose(m, name) and name in m.children:
                self.bad('lost-entry', 'lookup of %r in inode %d: ENOENT' % (name, parent.id))
            return None
        if not self.loose(m, name):
            if name not in m.children:
                self.bad('ghost-entry', 'lookup of %r in %d found an entry' % (name, parent.id))
            if m.children[name] != attr.st_ino:
                self.bad('wrong-inode', 'lookup of %r in %d gave inode %d, not %d'
                         % (name, parent.id, attr.st_ino, m.children[name]))
            self.check_attr(attr, None)
        ki = self.get(attr)
        self.d_add(parent, name, ki)
        return ki

    async def walk(self, parts):
        '''Return KInode of the path (busy reference taken), or an errno'''
        cur = self.root
        cur.busy += 1
        for p in parts:
            if not stat.S_ISDIR(cur.mode):
                cur.busy -= 1
                self.put(cur)
                return errno.ENOTDIR
            async with cur.lock:
                nxt = await self.lookup_locked(cur, p)
                if nxt is not None:
                    nxt.busy += 1
            cur.busy -= 1
            self.put(cur)
            if nxt is None:
                return errno.ENOENT
            cur = nxt
        return cur

    async def walk_parent(self, path):
        parts = [p.encode('latin1') for p in path.split('/') if p]
        ki = await self.walk(parts[:-1])
        if not isinstance(ki, int) and not stat.S_ISDIR(ki.mode):
            self.unuse(ki)
            ki = errno.ENOTDIR
        return ki, (parts[-1] if parts else b'')

    def unuse(self, ki):
        ki.busy -= 1
        self.put(ki)

    # ------------------------------------------------------------------ checks

    def check_attr(self, attr, reader, m=None):
        '''Compare attributes with the model, given concurrent changes'''
        m = m or self.model.inodes.get(attr.st_ino)
        if m is None or m.loose:
            return
        if attr.st_mode != m.mode or attr.st_uid != m.uid or attr.st_gid != m.gid:
            if not getattr(m, 'attr_busy', 0):
                self.bad('attr', 'inode %d: mode/uid/gid %o/%d/%d, expected %o/%d/%d' % (
                    m.ino, attr.st_mode, attr.st_uid, attr.st_gid, m.mode, m.uid, m.gid))
        if attr.st_rdev != m.rdev:
            self.bad('attr', 'inode %d: rdev %d, expected %d' % (m.ino, attr.st_rdev, m.rdev))
        if m.is_reg():
            alts = list(m.maybe) + list(m.mods)
            base = len(m.data)
            if reader is not None:
                alts, base = reader.alts, len(reader.base)
            sizes = m.sizes(base, alts)
            if attr.st_size not in sizes:
                self.bad('size', 'inode %d: size %d, expected %s'
                         % (m.ino, attr.st_size, sorted(sizes)[:8]))
        elif m.target is not None and attr.st_size != len(m.target):
            self.bad('size', 'symlink %d: size %d, expected %d'
                     % (m.ino, attr.st_size, len(m.target)))
        if not m.is_dir() and not getattr(m, 'nlink_busy', 0) and attr.st_nlink != m.nlink:
            self.bad('nlink', 'inode %d: link count %d, expected %d'
                     % (m.ino, attr.st_nlink, m.nlink))
        if not m.mods and not getattr(m, 'time_busy', 0) and not m.maybe:
            lo, hi = m.mtime
            slack = 2000
            if not (lo - slack <= attr.st_mtime_ns <= hi + slack):
                self.bad('mtime', 'inode %d: mtime %d not in [%d, %d]'
                         % (m.ino, attr.st_mtime_ns, lo, hi))
            if attr.st_ctime_ns < m.ctime[0] - slack:
                self.bad('ctime', 'inode %d: ctime %d before %d'
                         % (m.ino, attr.st_ctime_ns, m.ctime[0]))

    def touch(self, m, t0):
        now = (t0, self.now())
        m.mtime = now
        m.ctime = now
        m.mod_seq = self.model.next()

    def lk(self, *ms):
        '''State of the immutability of some inodes before a request'''
        return (any(m is not None and m.locked for m in ms), self.lock_gen,
                self.locking or any(m is not None and m.lock_unsure for m in ms))

    def may(self, lk):
        '''May the request have been refused because something is immutable?'''
        return lk[0] or lk[2] or self.locking or lk[1] != self.lock_gen

    def expect(self, what, got, want, m=None, lk=None):
        '''Compare an errno (0: success) with the expected one'''
        if got == want:
            self.refused += got == errno.EPERM
            return
        if got == errno.EPERM and lk is not None and self.may(lk):
            self.refused += 1
            return
        if want == errno.EPERM and lk is not None and not lk[0]:
            # became immutable while the request was in progress
            if got == 0:
                return
        if got == errno.EPERM and self.failsafe_ok and self.ops.failsafe:
            return
        if self.tree_op or (m is not None and m.loose):
            return
        self.bad('posix', '%s gave %s, expected %s' % (
            what, errno.errorcode.get(got, got), errno.errorcode.get(want, want)))

    class _Flight:
        def __init__(self, k, kind, entries, inos):
            self.k = k
            self.rec = {'kind': kind, 'entries': entries, 'inos': inos}

        def __enter__(self):
            self.id = self.k.model.next()
            self.k.model.inflight[self.id] = self.rec
            for m in self.rec['inos']:
                m.time_busy = getattr(m, 'time_busy', 0) + 1
                m.nlink_busy = getattr(m, 'nlink_busy', 0) + 1
            return self

        def __exit__(self, et, ev, tb):
            if et is None or issubclass(et, pyfuse3.FUSEError):
                self.k.model.inflight.pop(self.id, None)
            for m in self.rec['inos']:
                m.time_busy -= 1
                m.nlink_busy -= 1

    def flight(self, kind, entries, inos=()):
        '''Register a namespace change in flight: entries = [(dir ino, name, {acceptable})]'''
        return self._Flight(self, kind, entries, [m for m in inos if m is not None])

    # ------------------------------------------------------------------ namespace operations

    async def make(self, op):
        '''create / mkdir / symlink / mknod'''
        kind = op['op']
        pk, name = await self.walk_parent(op['path'])
        if isinstance(pk, int):
            return pk
        model = self.model
        try:
            async with pk.lock:
                pm = model.inodes.get(pk.id)
                have = await self.lookup_locked(pk, name)
                if have is not None:
                    return errno.EEXIST
                t0 = self.now()
                lk = self.lk(pm)
                loose = self.loose(pm, name)
                want = 0
                if pm is not None and not loose:
                    if pm.nlink == 0:
                        want = errno.EINVAL
                    elif pm.locked:
                        want = errno.EPERM
                mode = op.get('mode', 0o644)
                # the kernel passes a device number for devices only
                rdev = op.get('rdev', 0) if kind == 'mknod' and op.get('type') == 'chr' else 0
                err = 0
                fh = None
                with self.flight(kind, [(pk.id, name, {None, 'new'})], [pm]):
                    try:
                        if kind == 'create':
                            mode |= stat.S_IFREG
                            fi, attr = await self.call('create', pk.id, name, mode,
                                                       os.O_RDWR | os.O_CREAT, self.ctx)
                            fh = fi.fh
                        elif kind == 'mkdir':
                            mode = op.get('mode', 0o755) | stat.S_IFDIR
                            attr = await self.call('mkdir', pk.id, name, mode, self.ctx)
                        elif kind == 'symlink':
                            attr = await self.call('symlink', pk.id, name,
                                                   op['target'].encode('latin1'), self.ctx)
                            mode = attr.st_mode
                        else:
                            mode |= {'fifo': stat.S_IFIFO, 'chr': stat.S_IFCHR,
                                     'sock': stat.S_IFSOCK}[op.get('type', 'fifo')]
                            attr = await self.call('mknod', pk.id, name, mode, rdev, self.ctx)
                    except pyfuse3.FUSEError as exc:
                        err = exc.errno
                if pm is not None:
                    self.expect('%s %s' % (kind, op['path']), err, want, pm, lk)
                if err:
                    return err
                t1 = self.now()
                ki = self.get(attr)
                self.d_add(pk, name, ki)
                if attr.st_ino in model.inodes and not model.inodes[attr.st_ino].loose:
                    self.bad('inode-reuse', 'inode number %d handed out twice' % attr.st_ino)
                gid = self.ctx.gid
                if pm is not None and pm.mode & stat.S_ISGID:
                    gid = pm.gid
                    if stat.S_ISDIR(mode):
                        mode |= stat.S_ISGID
                self.overtaken(pm, name)
                m = model.add(
                    attr.st_ino, mode, self.ctx.uid, gid, (t0, t1), pm if pm else None, name,
                    rdev=rdev,
                    target=op['target'].encode('latin1') if kind == 'symlink' else None)
                if pm is None:
                    m.loose = True
                elif pm.loose:
                    m.loose = True
                self.check_attr(attr, None, m)
                if fh is not None:
                    ki.opens += 1
                    m.opens += 1
                    if op.get('slot') is not None:
                        await self.set_fd(op['slot'], ki, fh, m)
                    else:
                        await self.close_handle(ki, fh, m)
                return 0
        finally:
            self.unuse(pk)

    op_create = op_mkdir = op_symlink = op_mknod = make

    async def remove(self, op):
        kind = op['op']
        pk, name = await self.walk_parent(op['path'])
        if isinstance(pk, int):
            return pk
        model = self.model
        try:
            async with pk.lock:
                pm = model.inodes.get(pk.id)
                ki = await self.lookup_locked(pk, name)
                if ki is None:
                    return errno.ENOENT
                if pk.id == ROOT and name == LF:
                    return errno.EPERM
                isdir = stat.S_ISDIR(ki.mode)
                if kind == 'unlink' and isdir:
                    return errno.EISDIR
                if kind == 'rmdir' and not isdir:
                    return errno.ENOTDIR
                with self.use(ki):
                    async with ki.lock:
                        m = model.inodes.get(ki.id)
                        t0 = self.now()
                        want = 0
                        lk = self.lk(pm)
                        if pm is not None and m is not None:
                            if pm.locked:
                                want = errno.EPERM
                            if isdir and m.children:
                                want = errno.ENOTEMPTY
                                if pm.locked:
                                    want = (errno.EPERM, errno.ENOTEMPTY)
                        err = 0
                        with self.flight(kind, [(pk.id, name, {ki.id, None})], [pm, m]):
                            try:
                                await self.call(kind, pk.id, name, self.ctx)
                            except pyfuse3.FUSEError as exc:
                                err = exc.errno
                        if pm is not None and m is not None and not self.loose(pm, name) and not (
                                isinstance(want, tuple) and err in want):
                            self.expect('%s %s' % (kind, op['path']), err,
                                        want[0] if isinstance(want, tuple) else want, m, lk)
                        if err:
                            return err
                        self.d_drop(pk, name)
                        if pm is not None and m is not None:
                            pm.children.pop(name, None)
                            self.touch(pm, t0)
                            m.nlink -= 1
                            m.ctime = (t0, self.now())
                            m.mod_seq = model.next()
                            if isdir:
                                m.nlink = 0
                            model.drop_if_unused(m)
                return 0
        finally:
            self.unuse(pk)

    op_unlink = op_rmdir = remove

    async def op_rename(self, op):
        model = self.model
        a, an = await self.walk_parent(op['path'])
        if isinstance(a, int):
            return a
        b, bn = await self.walk_parent(op['to'])
        if isinstance(b, int):
            self.unuse(a)
            return b
        try:
            async with self.rename_lock:
                am, bm = model.inodes.get(a.id), model.inodes.get(b.id)
                if am is None or bm is None:
                    return errno.ENOENT
                first, second = a, b
                if a is not b:
                    if model.is_ancestor(b.id, a.id):
                        first, second = b, a
                    elif not model.is_ancestor(a.id, b.id) and b.id < a.id:
                        first, second = b, a
                async with first.lock:
                    if second is not first:
                        await second.lock.acquire()
                    try:
                        if a.id not in model.inodes or b.id not in model.inodes:
                            return errno.ENOENT  # removed while waiting for the locks
                        return await self._rename(op, a, an, am, b, bn, bm)
                    finally:
                        if second is not first:
                            second.lock.release()
        finally:
            self.unuse(a)
            self.unuse(b)

    async def _rename(self, op, a, an, am, b, bn, bm):
        model = self.model
        src = await self.lookup_locked(a, an)
        if src is None:
            return errno.ENOENT
        src.busy += 1
        dst = None
        try:
            dst = await self.lookup_locked(b, bn)
            if dst is not None:
                dst.busy += 1
            if (a.id == ROOT and an == LF) or (b.id == ROOT and bn == LF):
                return errno.EPERM
            sm = model.inodes.get(src.id)
            dm = model.inodes.get(dst.id) if dst else None
            if sm is None or (dst and dm is None):
                return errno.ENOENT
            sdir = stat.S_ISDIR(src.mode)
            if sdir and model.is_ancestor(src.id, b.id):
                return errno.EINVAL
            if dst is not None:
                if dst is src:
                    return 0
                if stat.S_ISDIR(dst.mode) and model.is_ancestor(dst.id, a.id):
                    return errno.ENOTEMPTY
                if sdir and not stat.S_ISDIR(dst.mode):
                    return errno.ENOTDIR
                if not sdir and stat.S_ISDIR(dst.mode):
                    return errno.EISDIR
            locks = [x for x in ((src if True else None), dst) if x is not None]
            locks.sort(key=lambda k: k.id)
            for k in locks:
                await k.lock.acquire()
            try:
                t0 = self.now()
                lk = self.lk(am, bm)
                want = {0}
                flags = op.get('flags', 0)
                if flags:
                    want = {errno.ENOTSUP, errno.EINVAL, errno.ENOSYS, errno.EOPNOTSUPP}
                elif am.locked or bm.locked:
                    want = {errno.EPERM}
                elif dm is not None and dm.is_dir() and dm.children:
                    # POSIX: EEXIST or ENOTEMPTY; s3ql documents neither and answers EINVAL
                    want = {errno.ENOTEMPTY, errno.EEXIST, errno.EINVAL}
                err = 0
                ent = [(a.id, an, {src.id, None}),
                       (b.id, bn, {dst.id if dst else None, src.id})]
                with self.flight('rename', ent, [am, bm, sm, dm]):
                    try:
                        await self.call('rename', a.id, an, b.id, bn, flags, self.ctx)
                    except pyfuse3.FUSEError as exc:
                        err = exc.errno
                if err not in want and not (self.loose(am, an) or self.loose(bm, bn)):
                    self.expect('rename %s -> %s' % (op['path'], op['to']), err, min(want), sm, lk)
                if err:
                    return err
                # dentry moves
                src_children = src.children
                if dst is not None:
                    self.d_drop(b, bn)
                ent = a.children.pop(an, None)
                src.dentries.discard((a.id, an))
                self.d_add(b, bn, src)
                src.children = src_children
                am.children.pop(an, None)
                if dm is None:
                    self.overtaken(bm, bn)
                bm.children[bn] = sm.ino
                if sm.is_dir():
                    sm.parent = bm.ino
                self.touch(am, t0)
                self.touch(bm, t0)
                if bm.loose:
                    for x in self.subtree(sm).values():
                        x.loose = True
                sm.mod_seq = model.next()
                if dm is not None:
                    dm.nlink -= 1
                    if dm.is_dir():
                        dm.nlink = 0
                    dm.ctime = (t0, self.now())
                    dm.mod_seq = model.next()
                    model.drop_if_unused(dm)
                return 0
            finally:
                for k in locks:
                    k.lock.release()
        finally:
            self.unuse(src)
            if dst is not None:
                self.unuse(dst)

    async def op_link(self, op):
        model = self.model
        src = await self.walk([p.encode('latin1') for p in op['path'].split('/') if p])
        if isinstance(src, int):
            return src
        try:
            pk, name = await self.walk_parent(op['to'])
            if isinstance(pk, int):
                return pk
            try:
                async with pk.lock:
                    if await self.lookup_locked(pk, name) is not None:
                        return errno.EEXIST
                    if stat.S_ISDIR(src.mode):
                        return errno.EPERM
                    async with src.lock:
                        pm, m = model.inodes.get(pk.id), model.inodes.get(src.id)
                        if m is None or m.nlink == 0:
                            return errno.ENOENT
                        t0 = self.now()
                        want = 0
                        lk = self.lk(pm)
                        if pm is not None:
                            if pm.nlink == 0:
                                want = errno.EINVAL
                            elif pm.locked:
                                want = errno.EPERM
                        err = 0
                        with self.flight('link', [(pk.id, name, {None, src.id})], [pm, m]):
                            try:
                                attr = await self.call('link', src.id, pk.id, name, self.ctx)
                            except pyfuse3.FUSEError as exc:
                                err = exc.errno
                        if pm is not None and not self.loose(pm, name):
                            self.expect('link %s -> %s' % (op['path'], op['to']), err, want, m,
                                        lk)
                        if err:
                            return err
                        if attr.st_ino != src.id:
                            self.bad('posix', 'link answered with inode %d' % attr.st_ino)
                        src.nlookup += 1
                        self.d_add(pk, name, src)
                        if pm is None or pm.loose:
                            m.loose = True
                        if pm is not None:
                            self.overtaken(pm, name)
                            pm.children[name] = m.ino
                            self.touch(pm, t0)
                        m.nlink += 1
                        m.ctime = (t0, self.now())
                        m.mod_seq = model.next()
                        self.check_attr(attr, None, m)
                        return 0
            finally:
                self.unuse(pk)
        finally:
            self.unuse(src)

    # ------------------------------------------------------------------ attributes

    async def at(self, op):
        return await self.walk([p.encode('latin1') for p in op['path'].split('/') if p])

    async def op_stat(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            m = self.model.inodes.get(ki.id)
            r = m.start_read() if m is not None else None
            busy = m is not None and (getattr(m, 'nlink_busy', 0) or getattr(m, 'attr_busy', 0))
            try:
                attr = await self.call('getattr', ki.id, self.ctx)
            finally:
                if r is not None:
                    m.end_read(r)
            if m is not None and not busy and self.model.inodes.get(ki.id) is m:
                self.check_attr(attr, r, m)
            return 0

    async def op_setattr(self, op):
        '''chmod / chown / utimens'''
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        model = self.model
        with self.use(ki):
            ki.busy -= 1
            async with ki.lock:
                m = model.inodes.get(ki.id)
                if m is None:
                    return errno.ENOENT
                attr = pyfuse3.EntryAttributes()
                kw = {}
                if 'mode' in op:
                    attr.st_mode = stat.S_IFMT(ki.mode) | op['mode']
                    kw['mode'] = True
                if 'uid' in op:
                    attr.st_uid = op['uid']
                    kw['uid'] = True
                if 'gid' in op:
                    attr.st_gid = op['gid']
                    kw['gid'] = True
                if 'atime' in op:
                    attr.st_atime_ns = op['atime']
                    kw['atime'] = True
                if 'mtime' in op:
                    attr.st_mtime_ns = op['mtime']
                    kw['mtime'] = True
                t0 = self.now()
                lk = self.lk(m)
                m.attr_busy = getattr(m, 'attr_busy', 0) + 1
                m.time_busy = getattr(m, 'time_busy', 0) + 1
                err = 0
                new = (attr.st_mode if 'mode' in op else m.mode,
                       op.get('uid', m.uid), op.get('gid', m.gid))
                fl = model.next()
                model.inflight[fl] = {'kind': 'setattr', 'entries': [], 'inos': [m], 'attr': new}
                m.attr_hist.append(new)
                try:
                    res = await self.call('setattr', ki.id, attr, Fields(**kw), None, self.ctx)
                except pyfuse3.FUSEError as exc:
                    err = exc.errno
                finally:
                    m.attr_busy -= 1
                    m.time_busy -= 1
                model.inflight.pop(fl)
                self.expect('setattr %s' % op['path'], err, errno.EPERM if lk[0] else 0, m, lk)
                if err:
                    m.attr_hist.remove(new)
                    return err
                m.mode, m.uid, m.gid = new
                ki.mode = m.mode
                m.ctime = (t0, self.now())
                if 'mtime' in op:
                    m.mtime = (op['mtime'], op['mtime'])
                m.mod_seq = model.next()
                self.check_attr(res, None, m)
                return 0

    async def op_truncate(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            return await self.truncate(ki, op['size'], op)

    async def truncate(self, ki, size, op):
        model = self.model
        if stat.S_ISDIR(ki.mode):
            return errno.EISDIR
        if not stat.S_ISREG(ki.mode):
            return errno.EINVAL
        await self.write_back(ki)
        async with ki.lock:
            m = model.inodes.get(ki.id)
            if m is None:
                return errno.ENOENT
            while ki.writers:
                await ki.writers[0][2].wait()
            attr = pyfuse3.EntryAttributes()
            attr.st_size = size
            t0 = self.now()
            attr.st_mtime_ns = t0
            lk = self.lk(m)
            mod = Mod('t', size=size)
            m.begin(mod)
            err = 0
            res = None
            try:
                res = await self.call('setattr', ki.id, attr, Fields(size=True, mtime=True), None,
                                      self.ctx)
            except pyfuse3.FUSEError as exc:
                err = exc.errno
            if err:
                if err == errno.EPERM and (self.may(lk) or self.ops.failsafe):
                    m.mods.remove(mod)
                else:
                    m.finish(mod, False, model.next())
                self.io_error('truncate', err, m, lk)
                return err
            if lk[0]:
                self.expect('truncate of locked file', 0, errno.EPERM, m)
            m.mtime = (t0, t0)
            m.ctime = (t0, self.now())
            m.finish(mod, True, model.next())
            if res is not None:
                self.check_attr(res, None, m)
            return 0

    def io_error(self, what, err, m, lk=None):
        '''An errno from a data operation: acceptable only when something was damaged'''
        if err == errno.EPERM and lk is not None and self.may(lk):
            self.refused += 1
            return
        if err == errno.EPERM and self.ops.failsafe and self.failsafe_ok:
            return
        if err == errno.EIO and self.eio_ok:
            self.errors.append((what, m.ino if m else None))
            if m is not None and m.ino not in self.damaged:
                self.bad('eio', '%s of undamaged inode %d gave EIO' % (what, m.ino))
            return
        if m is not None and m.loose:
            return
        self.bad('io-error', '%s of inode %s gave %s'
                 % (what, m.ino if m else '?', errno.errorcode.get(err, err)))

    # ------------------------------------------------------------------ extended attributes

    async def op_setxattr(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        model = self.model
        name, val = op['name'].encode('latin1'), op['value'].encode('latin1')
        with self.use(ki):
            ki.busy -= 1
            async with ki.lock:
                m = model.inodes.get(ki.id)
                if m is None:
                    return errno.ENOENT
                t0 = self.now()
                lk = self.lk(m)
                err = 0
                fl = model.next()
                model.inflight[fl] = {'kind': 'xattr', 'entries': [], 'inos': [m],
                                      'xattr': (name, val)}
                try:
                    await self.call('setxattr', ki.id, name, val, self.ctx)
                except pyfuse3.FUSEError as exc:
                    err = exc.errno
                model.inflight.pop(fl)
                self.expect('setxattr %s' % op['path'], err, errno.EPERM if lk[0] else 0, m, lk)
                if not err:
                    m.xattrs[name] = val
                    m.ctime = (t0, self.now())
                    m.mod_seq = model.next()
                return err

    async def op_removexattr(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        model = self.model
        name = op['name'].encode('latin1')
        with self.use(ki):
            ki.busy -= 1
            async with ki.lock:
                m = model.inodes.get(ki.id)
                if m is None:
                    return errno.ENOENT
                err = 0
                lk = self.lk(m)
                fl = model.next()
                model.inflight[fl] = {'kind': 'xattr', 'entries': [], 'inos': [m],
                                      'xattr': (name, None)}
                try:
                    await self.call('removexattr', ki.id, name, self.ctx)
                except pyfuse3.FUSEError as exc:
                    err = exc.errno
                model.inflight.pop(fl)
                want = errno.EPERM if lk[0] else 0 if name in m.xattrs else errno.ENODATA
                self.expect('removexattr %s %r' % (op['path'], name), err, want, m, lk)
                if not err:
                    m.xattrs.pop(name, None)
                    m.mod_seq = model.next()
                return err

    async def op_getxattr(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        name = op['name'].encode('latin1')
        with self.use(ki):
            ki.busy -= 1
            async with ki.lock:
                m = self.model.inodes.get(ki.id)
                if m is None:
                    return errno.ENOENT
                err = 0
                val = None
                try:
                    val = await self.call('getxattr', ki.id, name, self.ctx)
                except pyfuse3.FUSEError as exc:
                    err = exc.errno
                self.expect('getxattr %s %r' % (op['path'], name), err,
                            0 if name in m.xattrs else errno.ENODATA, m)
                if not err and not m.loose and bytes(val) != m.xattrs.get(name):
                    self.bad('xattr', 'getxattr %s %r: %r' % (op['path'], name, val))
                names = await self.call('listxattr', ki.id, self.ctx)
                if not m.loose and sorted(bytes(n) for n in names) != sorted(m.xattrs):
                    self.bad('xattr', 'listxattr %s: %r, expected %r'
                             % (op['path'], names, sorted(m.xattrs)))
                return err

    op_listxattr = op_getxattr

    async def op_readlink(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            if not stat.S_ISLNK(ki.mode):
                return errno.EINVAL
            m = self.model.inodes.get(ki.id)
            try:
                t = await self.call('readlink', ki.id, self.ctx)
            except pyfuse3.FUSEError as exc:
                if m is not None and not m.loose:
                    self.bad('posix', 'readlink %s gave errno %d' % (op['path'], exc.errno))
                return exc.errno
            if m is not None and not m.loose and bytes(t) != m.target:
                self.bad('posix', 'readlink %s gave %r, expected %r' % (op['path'], t, m.target))
            return 0

    async def op_readdir(self, op):
        '''Read a directory in several requests while others may change it'''
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            if not stat.S_ISDIR(ki.mode):
                return errno.ENOTDIR
            m = self.model.inodes.get(ki.id)
            if m is None:
                return errno.ENOENT
            loose0 = m.loose
            fh = await self.call('opendir', ki.id, self.ctx)
            ki.opens += 1
            m.opens += 1
            start = dict(m.children)
            always = dict(start)  # entries present all the time
            ever = {n: {i} for n, i in start.items()}
            watch = {'always': always, 'ever': ever, 'dir': m}
            if not hasattr(m, 'dirwatch'):
                m.dirwatch = []
            seen = {}
            off = 0
            try:
                while True:
                    async with ki.lock:
                        self._note_dir(m, always, ever)
                        tok = _ReaddirToken(op.get('chunk', 3))
                        await self.call('readdir', fh, off, tok)
                        self._note_dir(m, always, ever)
                        for name, attr, nxt in tok.entries:
                            if name in seen and seen[name] == attr.st_ino and name in always \
                                    and not m.loose:
                                self.bad('readdir', 'entry %r listed twice' % name)
                            seen[name] = attr.st_ino
                            off = nxt
                            # like the kernel's readdirplus: every reply is a lookup
                            c = self.get(attr)
                            if not (m.loose or self.tree_op):
                                if attr.st_ino not in ever.get(name, ()):
                                    self.bad('readdir', 'entry %r (inode %d) does not exist'
                                             % (name, attr.st_ino))
                                if m.children.get(name) == attr.st_ino:
                                    self.check_attr(attr, None)
                            if m.children.get(name) == attr.st_ino:
                                self.d_add(ki, name, c)
                            else:
                                c.busy += 1
                                self.unuse(c)
                    if not tok.entries:
                        break
                    await self.sim.pause(self.sim.rng_client, self.cfg['think'])
                await self.call('releasedir', fh)
            finally:
                ki.opens -= 1
                m.opens -= 1
            if not (loose0 or m.loose or self.tree_op):
                for name, ino in always.items():
                    if name not in seen:
                        self.bad('readdir', 'entry %r missing from listing of %s'
                                 % (name, op['path']))
            self.model.drop_if_unused(m)
            return 0

    def _note_dir(self, m, always, ever):
        for n in list(always):
            if m.children.get(n) != always[n]:
                del always[n]
        for n, i in m.children.items():
            ever.setdefault(n, set()).add(i)

    # ------------------------------------------------------------------ files

    async def set_fd(self, slot, ki, fh, m):
        old = self.fds.pop(slot, None)
        self.fds[slot] = (ki, fh, m)
        if old is not None:
            await self.close_handle(*old)

    async def close_handle(self, ki, fh, m):
        with self.use(ki):
            await self.write_back(ki)
            await self.call('flush', fh)
            await self.call('release', fh)
            ki.opens -= 1
            m.opens -= 1
        self.model.drop_if_unused(m)

    async def op_open(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            m = self.model.inodes.get(ki.id)
            if m is None:
                return errno.ENOENT
            if not m.is_reg():
                return errno.EINVAL
            flags = op.get('flags', os.O_RDWR)
            err, fh = await self.open_file(ki, m, flags, op)
            if err:
                return err
            await self.set_fd(op['slot'], ki, fh, m)
            return 0

    async def open_file(self, ki, m, flags, op):
        trunc = flags & os.O_TRUNC
        if trunc:
            await ki.lock.acquire()
        try:
            mod = None
            t0 = self.now()
            lk = self.lk(m)
            if trunc:
                while ki.writers:
                    await ki.writers[0][2].wait()
                mod = Mod('t', size=0)
                m.begin(mod)
            err = 0
            fi = None
            try:
                fi = await self.call('open', ki.id, flags, self.ctx)
            except pyfuse3.FUSEError as exc:
                err = exc.errno
            if err:
                if mod is not None:
                    m.mods.remove(mod)
                wr = flags & (os.O_RDWR | os.O_WRONLY)
                want = errno.EPERM if lk[0] and wr else 0
                self.expect('open %s' % op['path'], err, want, m, lk if wr else None)
                return err, None
            if lk[0] and flags & (os.O_RDWR | os.O_WRONLY):
                self.expect('open for writing of locked file', 0, errno.EPERM, m)
            if mod is not None:
                m.mtime = m.ctime = (t0, self.now())
                m.finish(mod, True, self.model.next())
            ki.opens += 1
            m.opens += 1
            return 0, fi.fh
        finally:
            if trunc:
                ki.lock.release()

    async def op_close(self, op):
        ent = self.fds.pop(op['slot'], None)
        if ent is None:
            return errno.EBADF
        await self.close_handle(*ent)
        return 0

    class _Handle:
        def __init__(self, k, op, write):
            self.k, self.op, self.write = k, op, write

    async def with_handle(self, op, write):
        '''Return (errno, ki, fh, m, temporary)'''
        if 'slot' in op:
            ent = self.fds.get(op['slot'])
            if ent is None:
                return errno.EBADF, None, None, None, False
            ki, fh, m = ent
            ki.opens += 1
            m.opens += 1
            if op['op'] != 'write':
                await self.write_back(ki)
            return 0, ki, fh, m, False
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki, None, None, None, False
        with self.use(ki):
            ki.busy -= 1
            m = self.model.inodes.get(ki.id)
            if m is None:
                return errno.ENOENT, None, None, None, False
            if not m.is_reg():
                return errno.EINVAL, None, None, None, False
            err, fh = await self.open_file(ki, m, os.O_RDWR if write else os.O_RDONLY,
                                           {'path': op['path']})
            if err:
                return err, None, None, None, False
            return 0, ki, fh, m, True

    async def end_handle(self, ki, fh, m, temp):
        if temp:
            await self.close_handle(ki, fh, m)
        else:
            ki.opens -= 1
            m.opens -= 1
            ki.busy += 1
            self.unuse(ki)
            self.model.drop_if_unused(m)

    async def op_write(self, op):
        err, ki, fh, m, temp = await self.with_handle(op, True)
        if err:
            return err
        try:
            if 'data' in op:
                data = op['data'].encode('latin1')
            else:
                data = content(op['tag'], op['len'])
            if self.buffered(not temp) and op['off'] >= 0 and not self.lk(m)[0] \
                    and not self.ops.failsafe:
                if any(e.ki is ki and e.off < op['off'] + len(data) and op['off'] < e.off + len(e.data)
                       for e in self.dirty):
                    await self.write_back(ki)
                self.write_later(ki, fh, m, op['off'], data)
                return 0
            await self.write_back(ki)
            off = op['off'] if op['off'] >= 0 else len(m.data)
            return await self.write(ki, fh, m, off, data)
        finally:
            await self.end_handle(ki, fh, m, temp)

    async def write(self, ki, fh, m, off, data):
        lock = not self.writeback
        w = (off, off + len(data), trio.Event())
        await ki.lock.acquire()
        if not lock:
            # page locks: overlapping writes are not sent at the same time
            try:
                while True:
                    clash = [x for x in ki.writers if x[0] < w[1] and off < x[1]]
                    if not clash:
                        break
                    await clash[0][2].wait()
            finally:
                ki.lock.release()
        ki.writers.append(w)
        try:
            t0 = self.now()
            lk = self.lk(m)
            mod = Mod('w', off, data)
            m.begin(mod)
            err = 0
            n = 0
            try:
                n = await self.call('write', fh, off, data)
            except pyfuse3.FUSEError as exc:
                err = exc.errno
            if err:
                if err == errno.EPERM and (self.may(lk) or self.ops.failsafe):
                    # refused before anything was written, or stopped in the middle
                    if lk[0] and not self.ops.failsafe:
                        m.mods.remove(mod)
                    else:
                        m.finish(mod, False, self.model.next())
                else:
                    m.finish(mod, False, self.model.next())
                self.io_error('write', err, m, lk)
                return err
            if lk[0]:
                self.expect('write to locked file', 0, errno.EPERM, m)
            if n != len(data):
                self.bad('short-write', 'write of %d bytes answered %r' % (len(data), n))
            m.finish(mod, True, self.model.next())
            m.mtime = m.ctime = (min(t0, m.mtime[0]) if m.mods else t0, self.now())
            if self.writeback:
                # several writes may finish in any order; the last one sets the time
                m.mtime = (t0, self.now())
            return 0
        finally:
            ki.writers.remove(w)
            w[2].set()
            if lock:
                ki.lock.release()

    async def op_read(self, op):
        err, ki, fh, m, temp = await self.with_handle(op, False)
        if err:
            return err
        try:
            r = m.start_read()
            off, n = op['off'], op['len']
            err = 0
            got = b''
            try:
                got = await self.call('read', fh, off, n)
            except pyfuse3.FUSEError as exc:
                err = exc.errno
            finally:
                m.end_read(r)
            if err:
                self.io_error('read', err, m)
                return err
            self.check_read(m, r, off, n, got)
            return 0
        finally:
            await self.end_handle(ki, fh, m, temp)

    def check_read(self, m, r, off, n, got):
        if m.loose:
            return
        sizes = m.sizes(len(r.base), r.alts)
        lens = {max(0, min(n, s - off)) for s in sizes}
        if len(got) not in lens:
            self.bad('read-length', 'read of inode %d [%d:%d] gave %d bytes, expected %s'
                     % (m.ino, off, off + n, len(got), sorted(lens)[:6]))
        pos = m.check_bytes(r.base, r.alts, off, got)
        if pos is not None:
            self.bad('read-data', 'read of inode %d: byte %d is %d; committed %s, concurrent %s'
                     % (m.ino, pos, got[pos - off],
                        r.base[pos] if pos < len(r.base) else 'none', r.alts))

    async def op_fsync(self, op):
        err, ki, fh, m, temp = await self.with_handle(op, False)
        if err:
            return err
        try:
            async with ki.lock:
                while ki.writers:
                    await ki.writers[0][2].wait()
                s, a = m.size, m.attr_tuple()
                mods = bool(m.mods)
                await self.call('fsync', fh, bool(op.get('datasync', False)))
                if not mods and not m.mods and not op.get('datasync'):
                    m.size_hist = [s] if s == m.size else [s, m.size]
                    m.attr_hist = [a]
                self.sim.ev('flushed')
            return 0
        finally:
            await self.end_handle(ki, fh, m, temp)

    async def op_damage(self, op):
        '''The storage service loses or damages an object'''
        from .damage import damage

        oid = damage(self.run_obj.store, op, self.sim)
        if oid is not None:
            self.bad_objects.update(oid)
            self.note_damage()
        return 0

    async def op_statfs(self, op):
        await self.call('statfs', self.ctx)
        return 0

    # ------------------------------------------------------------------ kernel housekeeping

    async def op_prune(self, op):
        '''Memory pressure: drop unused dentries (and so send FORGETs)'''
        frac = op.get('frac', 1.0)
        rng = self.sim.rng_client

        def prune(ki):
            for name in list(ki.children):
                c = ki.children[name][0]
                prune(c)
                if not c.children and not c.busy and not c.opens and rng.random() < frac:
                    self.d_drop(ki, name)

        prune(self.root)
        return 0

    async def op_sleep(self, op):
        await trio.sleep(op['secs'])
        return 0

    # ------------------------------------------------------------------ control file

    async def ctrl(self, name, value=b''):
        from s3ql import CTRL_INODE, CTRL_NAME

        attr = await self.call('lookup', ROOT, CTRL_NAME, self.ctx)
        if attr.st_ino != CTRL_INODE:
            self.bad('posix', 'control file has inode %d' % attr.st_ino)
        try:
            # the kernel holds the lock of the (single) control inode meanwhile
            async with self.ctrl_lock:
                await self.call('setxattr', CTRL_INODE, name, value, self.ctx)
        except pyfuse3.FUSEError as exc:
            return exc.errno
        finally:
            self.nursery.start_soon(self._forget_quiet, [(CTRL_INODE, 1)])
        return 0

    async def command(self, name, value=b'dummy'):
        if self.cfg.get('tools'):
            return await self.ctrl_tool(name, value)
        return await self.ctrl(name, value)

    async def _forget_quiet(self, lst):
        try:
            await self.call('forget', lst)
        except Fatal:
            self.stop_event.set()

    def histories(self):
        return [(m, m.attr_hist, len(m.attr_hist), m.attr_tuple(), m.size_hist, len(m.size_hist), m.size)
                for m in self.model.inodes.values()
                if not getattr(m, 'attr_busy', 0) and not m.mods]

    def forget_history(self, hist):
        '''Attributes that were current when the (successful) command began are durable'''
        for m, ah, an, a, sh, sn, size in hist:
            if m.attr_hist is ah:
                m.attr_hist = [a] + ah[an:]
            if m.size_hist is sh and m.is_reg():
                m.size_hist = [size] + sh[sn:]

    async def op_flush(self, op):
        seqs = {m.ino: m.mod_seq for m in self.model.inodes.values() if not m.mods}
        hist = self.histories()
        s0 = self.model.next()
        err = await self.command(b's3ql_flushcache!')
        if not err:
            self.model.flush_seq = s0
            self.forget_history(hist)
            self.sim.ev('flushed')
        if err:
            self.bad('posix', 'flush gave errno %d' % err)
        self.model.flushed.update(seqs)
        return err

    async def op_drop(self, op):
        seqs = {m.ino: m.mod_seq for m in self.model.inodes.values() if not m.mods}
        hist = self.histories()
        s0 = self.model.next()
        err = await self.command(b's3ql_dropcache!')
        if not err:
            self.model.flush_seq = s0
            self.forget_history(hist)
            self.sim.ev('flushed')
        if err:
            self.bad('posix', 'drop gave errno %d' % err)
        self.model.flushed.update(seqs)
        return err

    async def op_cachesize(self, op):
        err = await self.command(b'cachesize', str(op['size']).encode())
        if err:
            self.bad('posix', 'cachesize gave errno %d' % err)
        return err

    async def op_upload_meta(self, op):
        err = await self.command(b'upload-meta')
        if err:
            self.bad('posix', 'upload-meta gave errno %d' % err)
        return err

    async def op_extstat(self, op):
        from s3ql import CTRL_INODE, CTRL_NAME

        if self.cfg.get('tools'):
            buf = await self.stat_tool()
        else:
            await self.call('lookup', ROOT, CTRL_NAME, self.ctx)
            buf = await self.call('getxattr', CTRL_INODE, b's3qlstat', self.ctx)
            self.nursery.start_soon(self._forget_quiet, [(CTRL_INODE, 1)])
        if self.cfg.get('check_stat'):
            self.cfg['check_stat'](self, buf)
        return 0

    # -- what pyfuse3 offers to the file system

    def invalidate_inode(self, ino, attr_only=False):
        ki = self.inodes.get(ino)
        if ki is not None and not attr_only:
            for n in list(ki.children):
                c = ki.children[n][0]
                if not c.busy and not c.opens and not c.children:
                    self.d_drop(ki, n)

    def invalidate_entry(self, parent, name, deleted=0):
        self.notify_pending += 1
        self.nursery.start_soon(self._invalidate, parent, name, deleted)

    async def _invalidate(self, parent, name, deleted):
        try:
            await self.sim.pause(self.sim.rng_client, self.cfg['forget_delay'])
            ki = self.inodes.get(parent)
            if ki is None:
                return
            with self.use(ki):
                async with ki.lock:
                    ent = ki.children.get(name)
                    if ent is not None and (not deleted or ent[0].id == deleted):
                        if not ent[0].children:  # else: ENOTEMPTY
                            self.d_drop(ki, name)
        finally:
            self.notify_pending -= 1

    # ------------------------------------------------------------------ running

    async def client(self, ops, idx):
        sim = self.sim
        try:
            for i, op in enumerate(ops):
                if self.stop_event.is_set() or self.detached:
                    return
                if op.get('wait'):
                    await trio.sleep(op['wait'])
                else:
                    await sim.pause(sim.rng_client, self.cfg['think'])
                if self.detached:
                    return
                if self.lazy and op['op'] not in ('close', 'sleep') and (
                        op['op'] not in ('write', 'read', 'fsync') or 'slot' not in op):
                    continue  # only open files can still be reached
                self.current[idx] = (i, op)
                sim.ev('op', idx, i, op['op'])
                fn = getattr(self, 'op_' + op['op'])
                res = await fn(op)
                sim.ev('op-', idx, i, res)
                if op['op'] in ('rmtree', 'lock', 'cp'):
                    key = '%s:%s' % (op['op'], errno.errorcode.get(res, res) if res else 'ok')
                    sim.probes[key] = sim.probes.get(key, 0) + 1
                self.current.pop(idx, None)
                self.tasks_done += 1
                self.model.ns_note()
                if self.cfg.get('after_op'):
                    self.cfg['after_op'](self, idx, op, res)
        except Fatal:
            self.stop_event.set()

    async def run(self, clients):
        '''Drive the clients to the end, close everything, return'''
        self.stop_event = trio.Event()
        self.current = {}

        async def stopper(scope):
            # an exception in one request handler tears down all of them, like in pyfuse3
            await self.stop_event.wait()
            scope.cancel()

        async with trio.open_nursery() as nursery:
            self.nursery = nursery
            async with trio.open_nursery() as outer:
                outer.start_soon(stopper, nursery.cancel_scope)
                async with trio.open_nursery() as cn:
                    for i, ops in enumerate(clients):
                        cn.start_soon(self.client, ops, i)
                outer.cancel_scope.cancel()
            if self.fatal is None and not self.stop_event.is_set():
                try:
                    for s in sorted(self.fds):
                        await self.close_handle(*self.fds.pop(s))
                    self.nursery = nursery
                    if self.cfg.get('at_end'):
                        await self.cfg['at_end'](self)
                except Fatal:
                    pass
        if self.fatal is not None:
            return
        # unmount: the kernel drops its dentries; FORGETs are sent for only some of them before
        # the connection is torn down
        if self.cfg.get('forget_at_end', True):
            async with trio.open_nursery() as nursery:
                self.nursery = nursery
                try:
                    await self.op_prune({'frac': self.cfg.get('end_frac', 1.0)})
                except Fatal:
                    pass


class _ReaddirToken:
    def __init__(self, n):
        self.left = n
        self.entries = []

    def reply(self, name, attr, nxt):
        if self.left <= 0:
            return False
        self.left -= 1
        self.entries.append((name, attr, nxt))
        return True
