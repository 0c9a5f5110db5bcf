'''Client side of the tree commands: s3qlcp, s3qllock and s3qlrm.'''

import errno
import stat

import pyfuse3

from .core import Violation
from .model import Children, MInode


class TreeOps:
    # ------------------------------------------------------------------ helpers

    def subtree(self, m):
        '''All model inodes at or below *m*'''
        out = {m.ino: m}
        todo = [m]
        while todo:
            d = todo.pop()
            for i in (d.children or {}).values():
                c = self.model.inodes.get(i)
                if c is not None and c.ino not in out:
                    out[c.ino] = c
                    todo.append(c)
        return out

    def fingerprint(self, m):
        return (m.attr_tuple(), m.mtime, m.ctime, m.rdev, m.target, len(m.data), m.mod_seq,
                tuple(sorted(m.children.items())) if m.children is not None else None,
                tuple(sorted(m.xattrs.items())))

    def in_flight(self, m):
        '''True if some request may be changing *m* now'''
        if m.mods or getattr(m, 'attr_busy', 0) or getattr(m, 'time_busy', 0):
            return True
        for rec in self.model.inflight.values():
            if any(x is m for x in rec['inos']):
                return True
            if any(d == m.ino for d, _n, _s in rec['entries']):
                return True
        return False

    # ------------------------------------------------------------------ population

    async def op_bulk(self, op):
        '''Create many entries in one directory'''
        d = op['path']
        n = op['n']
        style = op.get('style', 0)
        for i in range(n):
            p = '%s/%sb%03d' % (d, op.get('pre', ''), i)
            k = (i + style) % 7
            if k in (0, 3):
                r = await self.make({'op': 'create', 'path': p})
                if not r and k == 0:
                    await self.op_write({'path': p, 'off': 0, 'len': (300, 1024, 2100)[i % 3],
                                         'tag': 1 + i % 5})
            elif k == 1:
                r = await self.make({'op': 'symlink', 'path': p, 'target': 't%d' % i})
            elif k == 2 and i > 3:
                r = await self.op_link({'path': '%s/%sb%03d' % (d, op.get('pre', ''), i - 2),
                                        'to': p})
            elif k == 4 and op.get('deep'):
                r = await self.make({'op': 'mkdir', 'path': p})
                for j in range(op['deep']):
                    await self.make({'op': 'mknod', 'path': '%s/n%d' % (p, j), 'type': 'fifo'})
            else:
                r = await self.make({'op': 'mknod', 'path': p, 'type': 'sock'})
            if r not in (0, errno.EEXIST):
                return r
        return 0

    # ------------------------------------------------------------------ s3qllock

    async def op_lock(self, op):
        ki = await self.at(op)
        if isinstance(ki, int):
            return ki
        with self.use(ki):
            ki.busy -= 1
            m = self.model.inodes.get(ki.id)
            if m is None or m.nlink == 0:
                return errno.ENOENT
            self.locking += 1
            try:
                with self.flight('lock', [], []):
                    if self.cfg.get('tools') and m.is_dir() and ki.id != 1:
                        err = await self.lock_tool(op, ki, m)
                    else:
                        err = await self.ctrl(b'lock', b'%d' % ki.id)
                if err and not (err == errno.EPERM and self.ops.failsafe):
                    self.bad('posix', 'locking %s gave %s' % (op['path'], err))
                if not err:
                    self.lock_gen += 1
                    for x in self.subtree(m).values():
                        x.locked = True
                        x.lock_seq = min(x.lock_seq, self.model.next())
            finally:
                self.locking -= 1
            return err

    # ------------------------------------------------------------------ s3qlrm

    async def op_rmtree(self, op):
        pk, name = await self.walk_parent(op['path'])
        if isinstance(pk, int):
            return pk
        model = self.model
        quiet = op.get('quiet')
        try:
            async with pk.lock:
                pm = model.inodes.get(pk.id)
                ki = await self.lookup_locked(pk, name)
                if ki is None:
                    return errno.ENOENT
                if pk.id == 1 and name == b'lost+found':
                    return errno.EPERM
                ki.busy += 1
            try:
                m = model.inodes.get(ki.id)
                if m is None or pm is None or m.nlink == 0:
                    return errno.ENOENT
                if pm.children.get(name) != m.ino:
                    return errno.ENOENT
                lk = self.lk(pm)
                busy0 = list(self.subtree(m).values())
                for x in busy0 + [pm]:
                    x.nlink_busy = getattr(x, 'nlink_busy', 0) + 1
                    x.time_busy = getattr(x, 'time_busy', 0) + 1
                    if not quiet:
                        x.was_loose = x.loose
                        x.loose = x.loose or x is not pm
                self.tree_op += not quiet
                self.removing[pk.id, name] = self.removing.get((pk.id, name), 0) + 1
                fl = model.next()
                model.inflight[fl] = {'kind': 'rmtree', 'inos': busy0 + [pm], 'top': m.ino,
                                      'entries': [(pk.id, name, {m.ino, None})]}
                t0 = self.now()
                try:
                    cmd = repr((pk.id, name)).encode()
                    if self.cfg.get('tools') and m.is_dir():
                        err = await self.remove_tool(op, pk, ki, cmd)
                    else:
                        err = await self.ctrl(b'rmtree', cmd)
                    while self.notify_pending:
                        await self.sim.pause(self.sim.rng_client, [0.01])
                    model.inflight.pop(fl)
                finally:
                    self.tree_op -= not quiet
                    self.removing[pk.id, name] -= 1
                    if not self.removing[pk.id, name]:
                        del self.removing[pk.id, name]
                    for x in busy0 + [pm]:
                        x.nlink_busy -= 1
                        x.time_busy -= 1
                if not err:
                    if lk[0]:
                        self.bad('posix', 'rmtree %s succeeded in a locked directory' % op['path'])
                    self.removed_tree(pk, pm, name, ki, m, t0, quiet)
                elif err == errno.EPERM and (self.may(lk) or self.ops.failsafe):
                    for x in busy0:
                        if not quiet:
                            x.loose = x.was_loose
                elif err == errno.ENOTEMPTY and not quiet:
                    self.rm_notempty += 1
                elif err == errno.ENOENT and pm.children.get(name) != m.ino:
                    pass
                else:
                    self.bad('rmtree', 'removing the tree %s gave %s' % (
                        op['path'], errno.errorcode.get(err, err)))
                return err
            finally:
                self.unuse(ki)
        finally:
            self.unuse(pk)

    def removed_tree(self, pk, pm, name, ki, m, t0, quiet):
        model = self.model
        # entries below
        gone = []
        todo = [m]
        seen = set()
        while todo:
            d = todo.pop()
            if d.children is None or d.ino in seen:
                continue
            seen.add(d.ino)
            for n, i in list(d.children.items()):
                gone.append((d, n, i))
                c = model.inodes.get(i)
                if c is not None and c.is_dir():
                    todo.append(c)
        if pm.children.get(name) == m.ino:
            gone.append((pm, name, m.ino))
        for d, n, i in gone:
            d.children.pop(n, None)
            kd = self.inodes.get(d.ino)
            if kd is not None and n in kd.children and kd.children[n][0].id == i:
                self.d_drop(kd, n)
            c = model.inodes.get(i)
            if c is None:
                continue
            c.nlink -= 1
            c.ctime = (t0, self.now())
            c.mod_seq = model.next()
            if c.is_dir():
                c.nlink = 0
            model.drop_if_unused(c)
        self.touch(pm, t0)

    # ------------------------------------------------------------------ s3qlcp

    async def op_cp(self, op):
        model = self.model
        src = await self.at(op)
        if isinstance(src, int):
            return src
        try:
            sm = model.inodes.get(src.id)
            if sm is None or sm.loose or sm.nlink == 0:
                return errno.ENOENT
            if not sm.is_dir():
                return errno.ENOTDIR
            if self.cfg.get('tools') and src.id != 1:
                return await self.cp_tool(op, src, sm)
            err = await self.make({'op': 'mkdir', 'path': op['to']})
            if err:
                return err
            dst = await self.at({'path': op['to']})
            if isinstance(dst, int):
                return dst
            try:
                dm = model.inodes.get(dst.id)
                if dm is None or dm.loose or dm.children or not dm.is_dir():
                    return errno.EBUSY
                # like the program, which keeps the target directory open
                fh = await self.call('opendir', dst.id, self.ctx)
                dst.opens += 1
                dm.opens += 1
                try:
                    return await self._copy(op, src, sm, dst, dm)
                finally:
                    await self.call('releasedir', fh)
                    dst.opens -= 1
                    dm.opens -= 1
                    model.drop_if_unused(dm)
            finally:
                self.unuse(dst)
        finally:
            self.unuse(src)

    async def _copy(self, op, src, sm, dst, dm):
        from .tree import dump_tree

        model = self.model
        inside = self.subtree(sm)
        self_copy = dm.ino in inside
        before = {}
        readers = {}
        for i, x in inside.items():
            before[i] = None if self.in_flight(x) or x.maybe or x.loose else self.fingerprint(x)
            if x.is_reg():
                readers[i] = x.start_read()
        old = {i: (dict(x.children), dict(x.children.ver)) for i, x in inside.items()
               if x.children is not None}
        xat = {i: dict(x.xattrs) for i, x in inside.items()}
        lk = self.lk(sm)
        dseq = dm.mod_seq
        dm.loose = True
        dm.peeked = False
        fl = model.next()
        model.inflight[fl] = {'kind': 'cp', 'entries': [], 'inos': [dm], 'top': dm.ino}
        try:
            err = await self.ctrl(b'copy', b'(%d, %d)' % (src.id, dst.id))
        finally:
            for i, r in readers.items():
                if r in inside[i].readers:
                    inside[i].end_read(r)
        model.inflight.pop(fl)
        if err:
            if not (err == errno.EPERM and (self.ops.failsafe or self.may(lk))):
                if (err != errno.ENOENT or (sm.nlink and dm.nlink)) and not (
                        err == errno.EEXIST and (dm.children or dm.peeked or self.in_flight(dm))):
                    self.bad('copy', 'replicating %s gave %s' % (
                        op['path'], errno.errorcode.get(err, err)))
            return err
        same = {i for i, x in inside.items()
                if before[i] is not None and before[i] == self.fingerprint(x)
                and not self.in_flight(x) and model.inodes.get(i) is x}
        snap = {i: self.snapshot(inside[i]) for i in inside}
        for i, (ents, ver) in list(old.items()):
            # entries that did not change in the meantime
            now = inside[i].children
            busy = {n for rec in model.inflight.values() for d, n, _ in rec['entries'] if d == i}
            old[i] = {n: c for n, c in ents.items()
                      if now.ver.get(n) == ver.get(n) and n not in busy and now.get(n) == c}
        self.copies_checked += 1
        if op.get('weak') or dm.mod_seq != dseq or dm.children or self_copy or dm.nlink == 0 \
                or dm.ino in model.zombies:
            self.copies_weak += 1
            return 0
        # nobody else may enter the new tree until it has been read
        async with dst.lock:
            if dm.mod_seq != dseq or dm.peeked or dm.children:
                self.copies_weak += 1
                return 0
            dump = await dump_tree(self, dst.id)
            self.match_copy(op, sm, dm, dump, same, snap, readers, old, xat)
        return 0

    def snapshot(self, m):
        return {'attr': m.attr_tuple(), 'mtime': m.mtime, 'ctime': m.ctime, 'rdev': m.rdev,
                'target': m.target, 'data': bytes(m.data), 'xattrs': dict(m.xattrs),
                'children': dict(m.children) if m.children is not None else None,
                'reg': m.is_reg(), 'nlink': m.nlink}

    def match_copy(self, op, sm, dm, dump, same, snap, readers, old, xat):
        '''Compare the replica *dump* with the state of the source and take it into the model'''
        model = self.model
        what = 'copy %s of %s' % (op['to'], op['path'])
        pairs = {}  # replica inode -> source inode
        names = {}
        for r in dump.values():
            for c in (r['children'] or {}).values():
                names[c] = names.get(c, 0) + 1
        todo = [(sm.ino, dm.ino)]
        while todo:
            s, d = todo.pop()
            r = dump[d]
            kids = r['children']
            if s in same:
                want = snap[s]['children']
                if set(kids) != set(want):
                    self.bad('copy', '%s: directory %d holds %s, expected %s' % (
                        what, d, sorted(kids), sorted(want)))
            for n, x in old.get(s, {}).items():
                c = kids.get(n)
                if c is None:
                    self.bad('copy', '%s: entry %r of directory %d is missing' % (what, n, s))
                if c in pairs and pairs[c] != x:
                    self.bad('copy', '%s: inode %d stands for inodes %d and %d'
                             % (what, c, pairs[c], x))
                if c not in pairs:
                    pairs[c] = x
                    if dump[c]['children'] is not None:
                        todo.append((x, c))
        # hard links: names of one source inode must be names of one replica
        back = {}
        for c, x in pairs.items():
            if x in same and back.setdefault(x, c) != c:
                self.bad('copy', '%s: hard links to inode %d became inodes %d and %d'
                         % (what, x, back[x], c))
        for c, x in pairs.items():
            r = dump[c]
            if c in model.inodes:
                self.bad('copy', '%s shares inode %d with another tree' % (what, c))
            if x not in snap:
                continue
            s = snap[x]
            if r['err']:
                self.bad('copy', '%s: reading the replica of %d gave errno %d'
                         % (what, x, r['err']))
            if stat.S_IFMT(r['mode']) != stat.S_IFMT(s['attr'][0]):
                self.bad('copy', '%s: replica of %d has type %o' % (what, x, r['mode']))
            if r['rdev'] != s['rdev'] or r['target'] != s['target']:
                self.bad('copy', '%s: replica of %d has rdev %r and target %r, expected %r %r'
                         % (what, x, r['rdev'], r['target'], s['rdev'], s['target']))
            if x in same:
                if (r['mode'], r['uid'], r['gid']) != s['attr']:
                    self.bad('copy', '%s: replica of %d has attributes %s, expected %s'
                             % (what, x, (r['mode'], r['uid'], r['gid']), s['attr']))
                if not s['mtime'][0] - 2000 <= r['mtime'] <= s['mtime'][1] + 2000:
                    self.bad('copy', '%s: replica of %d has mtime %d, expected %s'
                             % (what, x, r['mtime'], s['mtime']))
                if r['xattrs'] != s['xattrs']:
                    self.bad('copy', '%s: replica of %d has extended attributes %r, expected %r'
                             % (what, x, r['xattrs'], s['xattrs']))
                if s['reg'] and r['data'] != s['data']:
                    pos = next((i for i, (a, b) in enumerate(zip(r['data'], s['data']))
                                if a != b), min(len(r['data']), len(s['data'])))
                    self.bad('copy-data', '%s: replica of inode %d differs at byte %d (size %d, '
                             'expected %d)' % (what, x, pos, len(r['data']), len(s['data'])))
            elif s['reg'] and x in readers:
                rd = readers[x]
                m = MInode(x, s['attr'][0], 0, 0, (0, 0))
                if r['size'] not in m.sizes(len(rd.base), rd.alts):
                    self.bad('copy-data', '%s: replica of inode %d has size %d' % (
                        what, x, r['size']))
                pos = m.check_bytes(rd.base, rd.alts, 0, r['data'])
                if pos is not None:
                    self.bad('copy-data', '%s: replica of inode %d: byte %d is %d; before %s, '
                             'concurrent %s' % (what, x, pos, r['data'][pos],
                                                rd.base[pos] if pos < len(rd.base) else 'none',
                                                rd.alts))
        if sm.ino in same:
            r = dump[dm.ino]
            if (r['mode'], r['uid'], r['gid']) != snap[sm.ino]['attr']:
                self.bad('copy', '%s: the directory has attributes %s, expected %s' % (
                    what, (r['mode'], r['uid'], r['gid']), snap[sm.ino]['attr']))
        # take it into the model
        from .tree import model_from_dump

        new = model_from_dump({**dump, 1: dump[dm.ino]})
        for ino, r in dump.items():
            if ino == dm.ino:
                continue
            x = new.inodes[ino]
            if not x.is_dir() and r['nlink'] != names[ino]:
                self.bad('copy', '%s: inode %d has link count %d, but %d names'
                         % (what, ino, r['nlink'], names[ino]))
            x.nlink = names[ino]
            x.wext = len(x.data)
            x.ext = [(0, len(x.data))]
            x.attr_hist = [x.attr_tuple()]
            x.mod_seq = model.next()
            model.inodes[ino] = x
        for ino, r in dump.items():
            for c in (r['children'] or {}).values():
                if model.inodes[c].is_dir():
                    model.inodes[c].parent = ino
        r = dump[dm.ino]
        dm.children = Children(r['children'])
        dm.mode, dm.uid, dm.gid = r['mode'], r['uid'], r['gid']
        ki = self.inodes.get(dm.ino)
        if ki is not None:
            ki.mode = dm.mode
        dm.mtime = (r['mtime'], r['mtime'])
        dm.ctime = (r['ctime'], r['ctime'])
        dm.attr_hist.append(dm.attr_tuple())
        dm.mod_seq = model.next()
        dm.loose = False
        self.copies_full += 1
        self.copied_files += len(pairs)
        self.model.ns_note()
