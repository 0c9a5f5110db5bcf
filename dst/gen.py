'''Generators of configurations, client programs, faults and crash points.'''

import math

SMALL_DIRS = ['d0', 'd1', 'd0/s0', 'd1/s1', 'd0/s0/t0']
NAMES = ['f0', 'f1', 'f2', 'f3']


def cfg(rng, **over):
    c = {
        'plain': rng.random() < 0.5,
        'compress': rng.choice(['none', 'zlib-1', 'zlib-6', 'bzip2-1', 'lzma-0']),
        'cachesize': rng.choice([2, 4, 8, 16, 64]),
        'entries': rng.choice([2, 3, 5, 8, 30]),
        'delay': rng.choice([0, 1, 10, 60]),
        'backup': rng.choice([5, 30, 300, 3600, 0]),
        'conns': rng.choice([1, 2, 4]),
        'threads': rng.choice([1, 2, 4]),
        'keep_cache': rng.random() < 0.3,
        'lat': rng.choice([[0.0], [0.0, 0.01, 0.2], [0.05, 0.5], [0.01, 3.0], [0.0, 20.0]]),
        'thread_delay': rng.choice([[0.0], [0.0, 0.005], [0.0, 0.2]]),
        'think': rng.choice([[0.0], [0.0, 0.1], [0.0, 0.0, 3.0], [0.5, 12.0]]),
        'forget_delay': rng.choice([[0.0], [0.0, 0.05, 2.0], [5.0]]),
        'page': rng.choice([1, 3, 7, 50]),
        'policy': rng.choice(['shuffle', 'shuffle', 'shuffle', 'pct', 'lifo', 'fifo']),
        'stall': rng.choice([0.0, 0.0, 0.05, 0.3]),
        'icache': rng.choice([2, 5, 100]),
        'writeback': rng.random() < 0.3,
        'mdblock': rng.choice([4, 8, 64]),
        'thread_yields': rng.random() < 0.25,
    }
    c.update(over)
    return c


def wchoice(rng, table):
    tot = sum(w for _, w in table)
    x = rng.random() * tot
    for v, w in table:
        x -= w
        if x < 0:
            return v
    return table[-1][0]


class OpGen:
    '''Generates operations over a small set of paths'''

    def __init__(self, rng, *, dirs=None, files=4, block=1024, blocks=4, tags=4, slots=4):
        self.rng = rng
        self.dirs = [''] + (SMALL_DIRS if dirs is None else list(dirs))
        self.names = NAMES[:files]
        self.block = block
        self.blocks = blocks
        self.tags = tags
        self.slots = slots

    def path(self, deep=True):
        rng = self.rng
        d = rng.choice(self.dirs) if deep else ''
        return (d + '/' if d else '') + rng.choice(self.names)

    def anypath(self):
        rng = self.rng
        if rng.random() < 0.3:
            return rng.choice(self.dirs)
        return self.path()

    def off(self):
        rng, b = self.rng, self.block
        k = rng.random()
        if k < 0.4:
            return b * rng.randrange(self.blocks)
        if k < 0.6:
            return max(0, b * rng.randrange(self.blocks + 1) + rng.choice((-1, 1, -100, 100, 512)))
        if k < 0.7:
            return -1  # append
        return rng.randrange(b * self.blocks)

    def length(self):
        rng, b = self.rng, self.block
        return rng.choice((1, 10, 100, b // 2, b, b, b, b + 1, 2 * b, 3 * b - 7))

    def data(self):
        rng = self.rng
        return rng.choice([0] + list(range(1, self.tags + 1)) * 2)

    def ref(self, slot_p=0.3):
        '''Either a path or a slot'''
        if self.rng.random() < slot_p:
            return {'slot': self.rng.randrange(self.slots)}
        return {'path': self.path()}

    def write(self):
        return {'op': 'write', **self.ref(), 'off': self.off(), 'len': self.length(),
                'tag': self.data()}

    def read(self):
        return {'op': 'read', **self.ref(), 'off': max(0, self.off()),
                'len': self.rng.choice((1, 100, self.block, 4 * self.block))}

    def create(self):
        op = {'op': 'create', 'path': self.path(), 'mode': self.rng.choice((0o644, 0o600, 0o755))}
        if self.rng.random() < 0.5:
            op['slot'] = self.rng.randrange(self.slots)
        return op

    def op(self, kind):
        rng = self.rng
        if kind == 'write':
            return self.write()
        if kind == 'read':
            return self.read()
        if kind == 'create':
            return self.create()
        if kind == 'truncate':
            return {'op': 'truncate', 'path': self.path(), 'size': max(0, self.off())}
        if kind == 'open':
            import os

            return {'op': 'open', 'path': self.path(), 'slot': rng.randrange(self.slots),
                    'flags': os.O_RDWR | (os.O_TRUNC if rng.random() < 0.2 else 0)}
        if kind == 'close':
            return {'op': 'close', 'slot': rng.randrange(self.slots)}
        if kind == 'fsync':
            return {'op': 'fsync', **self.ref(), 'datasync': rng.random() < 0.3}
        if kind == 'unlink':
            return {'op': 'unlink', 'path': self.path()}
        if kind == 'mkdir':
            return {'op': 'mkdir', 'path': rng.choice(self.dirs[1:] or ['d9']),
                    'mode': rng.choice((0o755, 0o700, 0o2755))}
        if kind == 'rmdir':
            return {'op': 'rmdir', 'path': rng.choice(self.dirs[1:] or ['d9'])}
        if kind == 'rename':
            if rng.random() < 0.25:
                return {'op': 'rename', 'path': rng.choice(self.dirs[1:] or ['d9']),
                        'to': rng.choice(self.dirs[1:] or ['d9'])}
            op = {'op': 'rename', 'path': self.anypath(), 'to': self.anypath()}
            if rng.random() < 0.05:
                op['flags'] = rng.choice((1, 2))
            return op
        if kind == 'link':
            return {'op': 'link', 'path': self.path(), 'to': self.path()}
        if kind == 'symlink':
            return {'op': 'symlink', 'path': self.path(),
                    'target': rng.choice(('x', '../d0/f1', 'y' * 300))}
        if kind == 'mknod':
            return {'op': 'mknod', 'path': self.path(), 'type': rng.choice(('fifo', 'chr', 'sock')),
                    'rdev': rng.choice((0, 259))}
        if kind == 'stat':
            return {'op': 'stat', 'path': self.anypath()}
        if kind == 'readdir':
            return {'op': 'readdir', 'path': rng.choice(self.dirs), 'chunk': rng.choice((1, 2, 50))}
        if kind == 'readlink':
            return {'op': 'readlink', 'path': self.path()}
        if kind == 'setattr':
            op = {'op': 'setattr', 'path': self.anypath()}
            for k, vals in (('mode', (0o600, 0o644, 0o711)), ('uid', (0, 1000, 1001)),
                            ('gid', (0, 1000)), ('mtime', (10**9, 1_650_000_000 * 10**9 + 5)),
                            ('atime', (10**9, 1_640_000_000 * 10**9 + 7))):
                if rng.random() < 0.4:
                    op[k] = rng.choice(vals)
            return op
        if kind == 'setxattr':
            return {'op': 'setxattr', 'path': self.anypath(),
                    'name': rng.choice(('user.a', 'user.b', 'f0')),
                    'value': rng.choice(('', 'v1', 'v2' * 40, '\xff\0z'))}
        if kind == 'removexattr':
            return {'op': 'removexattr', 'path': self.anypath(),
                    'name': rng.choice(('user.a', 'user.b', 'f0'))}
        if kind == 'getxattr':
            return {'op': 'getxattr', 'path': self.anypath(), 'name': rng.choice(('user.a', 'f0'))}
        if kind == 'prune':
            return {'op': 'prune', 'frac': rng.choice((0.3, 1.0))}
        if kind == 'sleep':
            return {'op': 'sleep', 'secs': rng.choice((0.3, 2.0, 6.0, 15.0, 70.0))}
        if kind == 'cachesize':
            return {'op': 'cachesize', 'size': rng.choice((1024, 3000, 8192, 65536))}
        return {'op': kind}

    def ops(self, table, n):
        return [self.op(wchoice(self.rng, table)) for _ in range(n)]


DATA = [('write', 12), ('read', 8), ('create', 4), ('truncate', 3), ('open', 3), ('close', 2),
        ('fsync', 1), ('unlink', 1.5), ('rename', 0.7), ('link', 0.5), ('stat', 1), ('flush', 0.6),
        ('drop', 0.8), ('cachesize', 0.4), ('sleep', 2), ('prune', 0.5), ('upload_meta', 0.2)]
NS = [('create', 8), ('mkdir', 6), ('unlink', 6), ('rmdir', 3), ('rename', 8), ('link', 4),
      ('symlink', 3), ('mknod', 1), ('stat', 4), ('readdir', 4), ('readlink', 1), ('setattr', 3),
      ('setxattr', 3), ('removexattr', 2), ('getxattr', 2), ('prune', 2), ('open', 2), ('close', 2),
      ('write', 3), ('read', 2), ('truncate', 1), ('sleep', 0.7), ('statfs', 0.2)]
MIXED = [('create', 5), ('mkdir', 3), ('unlink', 3), ('rmdir', 1), ('rename', 4), ('link', 2),
         ('symlink', 1), ('setattr', 1.5), ('setxattr', 1.5), ('removexattr', 0.7), ('write', 12),
         ('read', 4), ('truncate', 2), ('open', 2), ('close', 2), ('fsync', 1.5), ('flush', 0.5),
         ('drop', 0.4), ('sleep', 2), ('prune', 0.7), ('upload_meta', 0.3), ('mknod', 0.3)]


def setup_ops(rng, g, p_dirs=0.8, p_files=0.5):
    '''Populate the tree so that the random operations have something to work on'''
    out = []
    for d in g.dirs[1:]:
        if rng.random() < p_dirs:
            out.append({'op': 'mkdir', 'path': d})
    for d in g.dirs:
        for n in g.names:
            if rng.random() < p_files * (1.0 if not d else 0.5):
                p = (d + '/' if d else '') + n
                out.append({'op': 'create', 'path': p})
                if rng.random() < 0.6:
                    out.append({'op': 'write', 'path': p, 'off': 0,
                                'len': rng.choice((100, g.block, 3 * g.block)), 'tag': g.data()})
    return out


def clients(rng, g, table, n=None, length=None):
    n = n or rng.choice((1, 2, 3, 4, 6))
    length = length or rng.choice((6, 12, 25, 40))
    return [g.ops(table, max(2, length // n + rng.randrange(4))) for _ in range(n)]


def crash_points(rng, k=3, kinds=None, span=900):
    '''A few instants at which the process is (virtually) killed'''
    out = []
    for _ in range(k):
        lines = 0 if rng.random() < 0.5 else int(math.exp(rng.uniform(0, math.log(200))))
        if kinds and rng.random() < 0.6:
            kind, mx = rng.choice(kinds)
            out.append([kind, 1 + int(mx ** rng.random()) - 1 + rng.randrange(2), lines])
        else:
            out.append(['*', 1 + int(math.exp(rng.uniform(math.log(20), math.log(span)))), lines])
    out = [[a, max(1, b), c] for a, b, c in out]
    out.sort(key=lambda c: c[1])
    return out


def temp_faults(rng, rate=None, kinds=('temp', 'temp', 'lost', 'slow', 'stall')):
    if rng.random() < 0.4:
        return {}
    return {'rate': rate or rng.choice((0.02, 0.1, 0.3)), 'seed': rng.randrange(1 << 30),
            'kinds': list(kinds), 'burst': rng.choice((0, 0, 8))}


WEIRD = ("s x", "s'", 's"', "s\\", "s\n", "s\xff\xfe", "-s", "s,)", "%s", "s'\"", "\\x73", " s", "s\xc3\xa4",
         "s" * 255, "b's'", "{s}", "..s", "s.", "#s", "s;")


def programs(rng, plan, idx, top='s'):
    '''In some runs, the tree commands are issued by the real programs'''
    plan['tools'] = idx % 3 == 1
    plan['buffered'] = rng.choice((0, 0.5, 1.0)) if plan['tools'] else 0
    if plan['buffered']:
        # something is still in the kernel's cache when the command is issued
        def insert(ops):
            out = []
            for op in ops:
                if isinstance(op, dict) and op.get('op') in ('cp', 'lock', 'rmtree') \
                        and rng.random() < 0.7:
                    p = op['path'] + '/f%d' % rng.randrange(3)
                    out += [{'op': rng.choice(('open', 'open', 'create')), 'path': p, 'slot': 7},
                            {'op': 'write', 'slot': 7, 'off': rng.choice((0, 100, 1024)),
                             'len': rng.choice((10, 1024, 3000)), 'tag': 1 + rng.randrange(5)}]
                out.append(op)
            return out

        for s in plan.get('sessions', [plan]):
            s['clients'] = [insert(c) for c in s['clients']]
    if plan['tools'] and rng.random() < 0.6:
        new = rng.choice(WEIRD)

        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            if isinstance(x, dict):
                return {k: path(v) if k in ('path', 'to') and isinstance(v, str) else conv(v)
                        for k, v in x.items()}
            return x

        def path(p):
            a, sep, b = p.partition('/')
            return (new if a == top else a) + sep + b

        plan = conv(plan)
    return plan


def program_cfg(plan):
    return {'tools': plan.get('tools', False), 'buffered': plan.get('buffered', 0)}
