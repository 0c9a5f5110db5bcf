'''C12: the block cache respects its limits and accounts exactly.'''

import hashlib
import os
import struct

import trio

from .. import core
from .. import gen as G
from .. import scen, tree
from ..core import Violation
from ..world import khook

PROP = 'C12'
RUNS = {'quick': 320, 'thorough': 10000}
RULE = ('One run: clients write, read, truncate, delete, flush, drop and resize over a cache of a few '
        'blocks with slow and temporarily failing storage. After every file system request the files '
        'in the cache directory are compared with the reported number and size of cached blocks and '
        'with the limits, and every cached block whose content is not stored must be reported as '
        'dirty; the reported totals equal the tables and, at rest, the storage service. Whenever a '
        'cache file is deleted, its content must be stored unless the block was removed. Whole tree '
        'read back at the end.')
NOTE = ('Seeded search. The slack over the limits is one block plus one per client. Trusts the '
        'names of cache files (inode-block) and the layout of the statistics attribute.')

OPS = [('write', 14), ('read', 9), ('create', 3), ('truncate', 4), ('open', 2), ('close', 1.5),
       ('fsync', 0.5), ('unlink', 2), ('rename', 1), ('link', 0.3), ('flush', 1), ('drop', 1.5),
       ('sleep', 2), ('upload_meta', 0.3), ('extstat', 1), ('prune', 0.4)]


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 4)), dirs=rng.choice(([], ['d0'])),
                tags=rng.choice((2, 5, 30)), blocks=rng.choice((3, 6, 10)))
    c = G.cfg(rng, entries=rng.choice((1, 2, 3, 5, 8)), cachesize=rng.choice((1, 2, 4, 8, 64)),
              delay=rng.choice((0, 1, 10, 60)), backup=rng.choice((10, 300, 3600)))
    ops = OPS + ([('cachesize', 1)] if rng.random() < 0.3 else [])
    return {
        'cfg': c,
        'setup': G.setup_ops(rng, g, 0.8, 0.6),
        'clients': G.clients(rng, g, ops, n=rng.choice((1, 2, 3, 5, 8)),
                             length=rng.choice((15, 30, 60))),
        'faults': G.temp_faults(rng),
        'keep': rng.random() < 0.4,
        'second': g.ops(ops, 6), 'tools': idx % 3 == 1,
    }


@khook
def c12_init(k):
    st = k.c12 = {'dir': None, 'calls': 0, 'maxsize': k.run_obj.cfg['cachesize'] * 1024,
                  'entries': k.run_obj.cfg['entries'], 'clients': k.cfg['clients']}
    st['cur'] = st['maxsize']
    for n in os.listdir(k.run_obj.cachedir()):
        if n.endswith('-cache'):
            st['dir'] = os.path.join(k.run_obj.cachedir(), n)
    # a kept cache may have been filled under another limit
    st['maxsize'] = max(st['maxsize'], sum(cached(k).values()))


def cached(k):
    out = {}
    with os.scandir(k.c12['dir']) as it:
        for e in it:
            if e.name.endswith('.tmp'):
                continue
            a, b = e.name.split('-')
            out[int(a), int(b)] = e.stat().st_size
    return out


def sha(path):
    with core.real_open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).digest()


@khook
def c12_call(k, name, args, err):
    st = k.c12
    st['calls'] += 1
    if name == 'setxattr' and args[1] == b'cachesize' and err is None:
        # nothing is evicted by a smaller limit until the next block is needed
        st['cur'] = int(args[2])
        st['maxsize'] = max(st['maxsize'], st['cur'])
    files = cached(k)
    size = sum(files.values())
    # each request that found the cache just full adds a block, and all may have done so at once
    n = st['clients'] + 1
    block = k.run_obj.cfg['block'] * 1024
    if len(files) > st['entries'] + n:
        k.bad('cache-limit', '%d blocks cached, limit %d, %d requests at once'
              % (len(files), st['entries'], n))
    if size > st['maxsize'] + n * block:
        k.bad('cache-limit', '%d bytes cached, limit %d, %d requests at once'
              % (size, st['maxsize'], n))
    check_figures(k, files, size)


def check_figures(k, files, size, buf=None):
    v = struct.unpack('QQQQQQQQQQQQ', buf or k.ops.extstat())
    if v[7] != len(files) or v[8] != size:
        k.bad('cache-figures', 'reported %d blocks with %d bytes, on disk %d with %d'
              % (v[7], v[8], len(files), size))
    need, nsize = unsaved(k, files)
    if v[9] < need or v[9] > v[7] or v[10] < nsize or v[10] > v[8]:
        k.bad('dirty-figures', 'reported %d dirty blocks with %d bytes; %d with %d are not stored'
              % (v[9], v[10], need, nsize))
    return v


def unsaved(k, files):
    '''Number and size of the cached blocks whose content the storage service does not have'''
    q = {(a, b): (h, o) for a, b, h, o in k.ops.db.get_list(
        'SELECT inode, blockno, hash, obj_id FROM inode_blocks JOIN objects ON obj_id=objects.id')}
    objs = k.run_obj.store.objects
    n = s = 0
    for key, sz in files.items():
        row = q.get(key)
        if row is not None and 's3ql_data_%d' % row[1] in objs:
            if row[0] == sha(os.path.join(k.c12['dir'], '%d-%d' % key)):
                continue
        elif row is None and sz == 0:
            # created by a read of a hole: nothing has been written
            continue
        n += 1
        s += sz
    return n, s


@khook
def c12_unlink(k, path):
    '''A cache file is about to be deleted'''
    st = getattr(k, 'c12', None)
    name = os.path.basename(path)
    if st is None or st['dir'] is None or not path.startswith(st['dir']) or name.endswith('.tmp'):
        return
    ino, blk = (int(x) for x in name.split('-'))
    m = k.model.inodes.get(ino)
    block = k.run_obj.cfg['block'] * 1024
    if m is None or m.nlink == 0 or m.loose:
        return
    if getattr(m, 'nlink_busy', 0):
        return
    if any(x.kind == 't' and x.size <= blk * block for x in m.mods + m.maybe):
        return
    if blk * block >= len(m.data) and os.path.getsize(path) == 0:
        return
    if len(m.data) <= blk * block and not m.mods:
        return
    row = k.ops.db.get_list(
        'SELECT hash, obj_id FROM inode_blocks JOIN objects ON obj_id=objects.id '
        'WHERE inode=? AND blockno=?', (ino, blk))
    if not row and os.path.getsize(path) == 0:
        return
    if not row or row[0][0] != sha(path) \
            or 's3ql_data_%d' % row[0][1] not in k.run_obj.store.objects:
        k.bad('dropped-dirty', 'block %d of inode %d leaves the cache, but its content is not stored'
              % (blk, ino))


@khook
async def c12_end(k):
    # at rest: everything can be flushed, and then nothing is dirty
    await k.ctrl(b's3ql_flushcache!')
    store = k.run_obj.store
    for _ in range(60):
        await trio.sleep(60)
        if set(store.data_ids()) == {r[0] for r in k.ops.db.get_list('SELECT id FROM objects')}:
            break
    files = cached(k)
    v = check_figures(k, files, sum(files.values()))
    if v[9] or v[10]:
        k.bad('dirty-figures', '%d dirty blocks reported after a flush at rest' % v[9])
    stored = {i: len(store.objects['s3ql_data_%d' % i].data) for i in store.data_ids()}
    if v[1] != len(stored):
        k.bad('figures', '%d objects reported, %d stored' % (v[1], len(stored)))
    if v[5] != sum(stored.values()):
        k.bad('figures', 'compressed size %d reported, %d stored' % (v[5], sum(stored.values())))
    model = k.model
    live = [m for m in model.inodes.values() if m.nlink or m.ino == 1]
    ents = sum(len(m.children) for m in live if m.is_dir())
    want_inodes = len(live) + 1
    if v[0] != ents:
        k.bad('figures', '%d entries reported, %d exist' % (v[0], ents))
    if v[2] != want_inodes:
        k.bad('figures', '%d inodes reported, %d exist' % (v[2], want_inodes))
    size = sum(m.size for m in live)
    if v[3] != size and not any(m.maybe for m in live):
        k.bad('figures', 'total size %d reported, files have %d' % (v[3], size))
    # the cache still caches as much as configured
    await k.ctrl(b's3ql_dropcache!')
    files = cached(k)
    if files:
        k.bad('drop', '%d blocks in the cache after dropping it at rest' % len(files))
    block = k.run_obj.cfg['block'] * 1024
    n = 0
    for m in sorted(live, key=lambda m: m.ino):
        if m.is_reg() and m.nlink and not m.loose:
            fi = await k.call('open', m.ino, os.O_RDONLY, k.ctx)
            for off in range(0, len(m.data), block):
                await k.call('read', fi.fh, off, 1)
                n += 1
            await k.call('release', fi.fh)
    files = cached(k)
    if len(files) < min(n, st_limit(k)):
        k.bad('cache-limit', 'only %d of %d blocks just read are cached, the limit being %d'
              % (len(files), n, k.c12['entries']))
    # with one request at a time, there is at most one block too many
    if len(files) > k.c12['entries'] + 1 or sum(files.values()) > k.c12['cur'] + block:
        k.bad('cache-limit', '%d blocks with %d bytes cached at rest, the limits being %d and %d'
              % (len(files), sum(files.values()), k.c12['entries'], k.c12['cur']))


def st_limit(k):
    block = k.run_obj.cfg['block'] * 1024
    return min(k.c12['entries'], k.c12['cur'] // block)


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        run.cfg['keep_cache'] = plan['keep']
        kcfg = {'at_start': 'c12_init', 'after_call': 'c12_call', 'on_unlink': 'c12_unlink',
                'at_end': 'c12_end', 'tools': plan.get('tools', False),
                'clients': len(plan['clients'])}
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        res = scen.work(run, plan['clients'], 'work', faults=plan['faults'], dump=True, kcfg=kcfg)
        tree.compare_exact(run.model, res.dump, 'read-back')
        scen.table_check(run)
        res = scen.work(run, [plan['second']], 'second', dump=True, kcfg=kcfg)
        tree.compare_exact(run.model, res.dump, 'read-back')
        return run.stats
    finally:
        run.close()
