'''Reference model: an in-memory POSIX tree with byte-level acceptance sets.

Every file system request is recorded at its invocation and applied to the model when it has been
answered.  What is in flight yields alternatives: a concurrent read may see either value of a byte,
and after a crash a request in flight may or may not have taken effect.
'''

import errno
import hashlib
import stat

ROOT = 1
MAXSIZE = 1 << 20


def content(tag, n):
    if tag == 0:
        return b'\0' * n
    return hashlib.shake_128(b'%d' % tag).digest(n)


class Mod:
    __slots__ = ('kind', 'off', 'data', 'size', 'failed')

    def __init__(self, kind, off=0, data=b'', size=0):
        self.kind = kind  # 'w' or 't'
        self.off = off
        self.data = data
        self.size = size
        self.failed = False

    def __repr__(self):
        if self.kind == 'w':
            return 'write[%d:%d]' % (self.off, self.off + len(self.data))
        return 'trunc[%d]' % self.size


class Children(dict):
    '''Directory entries; counts the changes of each name'''

    def __init__(self, *a):
        super().__init__(*a)
        self.ver = {}

    def __setitem__(self, name, ino):
        self.ver[name] = self.ver.get(name, 0) + 1
        super().__setitem__(name, ino)

    def pop(self, name, default=None):
        self.ver[name] = self.ver.get(name, 0) + 1
        return super().pop(name, default)

    def __reduce__(self):
        return (Children._make, (dict(self), self.ver))

    @staticmethod
    def _make(d, ver):
        c = Children(d)
        c.ver = ver
        return c


class Reader:
    __slots__ = ('base', 'alts')

    def __init__(self, base, alts):
        self.base = base
        self.alts = alts


class MInode:
    def __init__(self, ino, mode, uid, gid, now, rdev=0, target=None):
        self.ino = ino
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.rdev = rdev
        self.target = target
        self.data = bytearray()
        self.nlink = 1
        self.xattrs = {}
        self.children = Children() if stat.S_ISDIR(mode) else None
        self.parent = None
        self.mtime = now  # (lo, hi) in ns
        self.ctime = now
        self.atime_set = None
        self.locked = False
        self.lock_seq = float("inf")
        self.lock_unsure = False
        self.mods = []  # in flight
        self.maybe = []  # failed: may have taken effect in part
        self.readers = []
        self.xmods = []  # xattr changes in flight: (name, value or None)
        self.lost = False  # data no longer predictable (backend damage)
        self.loose = False  # subject to an operation whose outcome the model does not predict
        self.size_hist = [len(self.data)]
        self.ext = []  # extents written
        self.wext = 0  # end of the written data
        self.attr_hist = [self.attr_tuple()]
        self.mod_seq = 0  # sequence number of the last change of data or attributes
        self.data_seq = 0
        self.opens = 0

    def attr_tuple(self):
        return (self.mode, self.uid, self.gid)

    @property
    def size(self):
        if self.target is not None:
            return len(self.target)
        return len(self.data)

    def is_dir(self):
        return self.children is not None

    def is_reg(self):
        return stat.S_ISREG(self.mode)

    # -- data

    def begin(self, mod):
        self.mods.append(mod)
        for r in self.readers:
            r.alts.append(mod)

    def finish(self, mod, ok, seq):
        self.mods.remove(mod)
        if not ok:
            mod.failed = True
            self.maybe.append(mod)
            return
        self.apply(mod)
        self.size_hist.append(len(self.data))
        self.mod_seq = self.data_seq = seq
        if mod.kind == 'w' and self.maybe:
            # bytes overwritten for certain are certain again
            keep = []
            for m in self.maybe:
                if (
                    m.kind == 'w'
                    and m.off >= mod.off
                    and m.off + len(m.data) <= mod.off + len(mod.data)
                ):
                    continue
                keep.append(m)
            self.maybe = keep

    def apply(self, mod):
        if mod.kind == 'w':
            end = mod.off + len(mod.data)
            if not mod.data:
                return
            if end > len(self.data):
                self.data.extend(b'\0' * (end - len(self.data)))
            self.data[mod.off : end] = mod.data
            a, b = mod.off, end
            rest = []
            for x, y in self.ext:
                if x <= b and a <= y:
                    a, b = min(a, x), max(b, y)
                else:
                    rest.append((x, y))
            self.ext = rest + [(a, b)]
            self.wext = max(self.wext, end)
        else:
            self.ext = [(x, min(y, mod.size)) for x, y in self.ext if x < mod.size]
            self.wext = max([0] + [y for _x, y in self.ext])
            if mod.size < len(self.data):
                del self.data[mod.size :]
            else:
                self.data.extend(b'\0' * (mod.size - len(self.data)))

    def start_read(self):
        r = Reader(bytes(self.data), list(self.maybe) + list(self.mods))
        self.readers.append(r)
        return r

    def end_read(self, r):
        self.readers.remove(r)

    @staticmethod
    def sizes(base_len, alts):
        s = {base_len}
        for m in alts:
            for x in list(s):
                if m.kind == 'w':
                    if m.data:
                        s.add(max(x, m.off + len(m.data)))
                        if m.failed:
                            # some prefix of it may have been written
                            s.update(range(max(x, m.off // 1024 * 1024),
                                           max(x, m.off + len(m.data))))
                else:
                    s.add(m.size)
                    if m.failed:
                        # some of the blocks may be gone, in any order
                        s.update(range(m.size // 1024 * 1024, x))
        return s

    @staticmethod
    def check_bytes(base, alts, off, got):
        '''Return None, or the offset of the first byte that no permitted history explains'''
        exp = base[off : off + len(got)]
        exp = exp + b'\0' * (len(got) - len(exp))
        if exp == got:
            return None
        for i, v in enumerate(got):
            if exp[i] == v:
                continue
            pos = off + i
            for m in alts:
                if m.kind == 'w':
                    if m.off <= pos < m.off + len(m.data) and m.data[pos - m.off] == v:
                        break
                elif m.size <= pos and v == 0:
                    break
            else:
                if v == 0 and pos >= len(base):
                    continue
                return pos
        return None


class Model:
    def __init__(self):
        now = (0, 1 << 62)
        root = MInode(ROOT, stat.S_IFDIR | 0o755, 0, 0, now)
        self.inodes = {ROOT: root}
        self.inflight = {}  # op id -> dict(kind=..., entries=[(dir, name, {acceptable ino})])
        self.seq = 0
        self.flush_seq = 0  # start of the last completed flush command
        self.flushed = {}  # ino -> seq at which all its blocks were known to be stored
        self.backup = None
        self.unflushed_ok = True
        self.ns_hist = None  # snapshots of the namespace, if kept
        self.veil = None  # name of a top directory that is left out of them
        self.marks = []  # (params object stored, len(ns_hist), dict(flushed))
        self.zombies = set()  # inodes without name that the kernel has not forgotten

    @property
    def root(self):
        return self.inodes[ROOT]

    def next(self):
        self.seq += 1
        return self.seq

    def add(self, ino, mode, uid, gid, now, parent=None, name=None, rdev=0, target=None):
        m = MInode(ino, mode, uid, gid, now, rdev, target)
        self.inodes[ino] = m
        m.mod_seq = self.next()
        if parent is not None:
            parent.children[name] = ino
            if m.is_dir():
                m.parent = parent.ino
            parent.mtime = parent.ctime = now
            parent.attr_hist.append(parent.attr_tuple())
        return m

    def resolve(self, parts):
        '''Return MInode, or an errno'''
        cur = self.root
        for p in parts:
            if not cur.is_dir():
                return errno.ENOTDIR
            nxt = cur.children.get(p)
            if nxt is None:
                return errno.ENOENT
            cur = self.inodes[nxt]
        return cur

    def is_ancestor(self, anc, ino):
        '''True if directory *anc* is *ino* or above it'''
        cur = ino
        while cur is not None:
            if cur == anc:
                return True
            cur = self.inodes[cur].parent
        return False

    def drop_if_unused(self, m):
        if m.nlink == 0 and m.opens == 0:
            if self.inodes.pop(m.ino, None) is not None:
                self.zombies.add(m.ino)

    def walk(self, m=None, prefix=()):
        m = m or self.root
        for name, ino in sorted(m.children.items()):
            c = self.inodes[ino]
            yield prefix + (name,), c
            if c.is_dir():
                yield from self.walk(c, prefix + (name,))

    def paths(self):
        return {'/'.join(p): m for p, m in self.walk()}

    def ns_note(self):
        if self.ns_hist is not None:
            hidden = self.hidden()
            ns = {i: (tuple(sorted(m.children.items())) if m.children is not None else None,
                      tuple(sorted(m.xattrs.items())), m.target)
                  for i, m in self.inodes.items()
                  if (m.nlink or i == ROOT) and i not in hidden}
            if not self.ns_hist or self.ns_hist[-1] != ns:
                self.ns_hist.append(ns)

    def hidden(self):
        '''Inodes in the directory that is left out of the history of the namespace'''
        todo = [self.inodes[ROOT].children.get(self.veil)] if self.veil else []
        out = set()
        while todo:
            i = todo.pop()
            if i in self.inodes and i not in out:
                out.add(i)
                todo.extend((self.inodes[i].children or {}).values())
        return out

    def on_put(self, key):
        if key.startswith('s3ql_params_'):
            self.marks.append((int(key[12:], 16), len(self.ns_hist or ()), dict(self.flushed)))

    def sync_all(self):
        '''Everything is durable now (clean unmount)'''
        for m in self.inodes.values():
            m.size_hist = [m.size]
            m.attr_hist = [m.attr_tuple()]
            m.maybe = list(m.maybe)

    def reset_session(self):
        '''The process that served requests is gone'''
        self.inflight.clear()
        self.zombies.clear()
        for m in list(self.inodes.values()):
            m.mods.clear()
            m.readers.clear()
            m.xmods.clear()
            m.opens = 0
            self.drop_if_unused(m)
