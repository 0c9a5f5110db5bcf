'''C07: damaged or lost objects give an I/O error, never wrong data.'''

import os

from .. import damage as D
from .. import gen as G
from .. import scen, tree
from ..core import Violation

PROP = 'C07'
RUNS = {'quick': 330, 'thorough': 9000}
RULE = ('One run: fill a file system, then lose, flip, truncate, extend, swap, replace or forge stored '
        'objects or their metadata, at rest and in the middle of a mount with several clients. Every '
        'read gives the right bytes or EIO, only inodes that use a damaged object may fail, after the '
        'first EIO every modification is refused, the mount ends well and marks the file system for '
        'fsck; a full read-back with one request per block checks that every other block is intact. '
        'Damage to the metadata objects must make a fresh machine refuse or show the exact tree.')
NOTE = ('Seeded search over damage kinds and positions, on the real encryption, compression, cache and '
        'file system code. Without encryption only the damage that the stored compression format can '
        'detect must give EIO; for the rest only survival of the mount is required.')

ENC = ['lose', 'flip', 'zero', 'truncate', 'empty', 'append', 'swap', 'foreign', 'data-only',
       'meta-only', 'meta', 'plaintext', 'nometa']
PLAIN_DETECT = ['lose', 'flip', 'truncate', 'empty', 'append']
PLAIN_WEAK = ['swap', 'foreign', 'data-only', 'meta-only', 'meta', 'meta', 'meta', 'meta', 'nometa', 'flip', 'truncate',
              'zero', 'append']
OPS = [('read', 14), ('write', 7), ('truncate', 4), ('create', 2), ('unlink', 1), ('rename', 1),
       ('link', 0.6), ('setattr', 0.7), ('setxattr', 0.7), ('mkdir', 0.5), ('symlink', 0.4),
       ('stat', 1), ('readdir', 1), ('open', 2), ('close', 1), ('fsync', 0.5), ('flush', 0.5),
       ('drop', 2), ('sleep', 1.5), ('prune', 0.5), ('mknod', 0.2), ('removexattr', 0.3)]


def one(rng, kinds, mid=False):
    how = rng.choice(kinds)
    op = {'op': 'damage', 'obj': rng.randrange(1000), 'how': how, 'seed': rng.randrange(1 << 30),
          'other': rng.randrange(1000)}
    if how == 'meta':
        op['key'] = rng.randrange(20)
        op['val'] = rng.choice(('drop', 'garble', 'garble', 'type', 'None', 'ZLIB', 'BZIP2', 'LZMA',
                                'AES_v9', 1, b'[1, 2]'.decode()))
    if how == 'flip' and rng.random() < 0.4:
        op['pos'] = rng.choice((0, 1, 2, 3, 4, -1, -2, -5, -33))
    return op


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=3, dirs=['d0'], tags=rng.choice((3, 6)), blocks=4)
    c = G.cfg(rng, cachesize=rng.choice((1, 3, 16)), entries=rng.choice((1, 2, 8)),
              lat=rng.choice(([0.0], [0.0, 0.01, 0.2], [0.01, 1.0])), conns=rng.choice((2, 3)))
    weak = False
    target = 'data'
    x = rng.random()
    if x < 0.6:
        c['plain'] = False
        kinds = ENC
    elif x < 0.75:
        c['plain'] = True
        c['compress'] = rng.choice(('zlib-6', 'bzip2-6', 'lzma-6', 'lzma-0', 'none'))
        kinds = PLAIN_DETECT if c['compress'] != 'none' else ['lose']
    elif x < 0.9:
        c['plain'] = True
        kinds, weak = PLAIN_WEAK, True
    else:
        target = 'metadata'
        c['plain'] = rng.random() < 0.3
        kinds = ['lose', 'flip', 'truncate', 'append', 'swap', 'zero', 'foreign']
        if not c['plain']:
            kinds = ENC
    clients = G.clients(rng, g, OPS, n=rng.choice((1, 2, 3, 4)), length=rng.choice((10, 25, 50)))
    rest = [one(rng, kinds) for _ in range(rng.choice((1, 1, 2, 4)))]
    mid = []
    if target == 'data':
        for _ in range(rng.choice((0, 0, 1, 2))):
            ops = rng.choice(clients)
            ops.insert(rng.randrange(len(ops) + 1), one(rng, kinds))
        if rng.random() < 0.3 and any(o['op'] == 'damage' for ops in clients for o in ops):
            rest = []
    setup = G.setup_ops(rng, g, 1.0, 1.0)
    # files with distinct content as well
    for i in range(rng.choice((1, 2, 4))):
        setup += [{'op': 'create', 'path': 'u%d' % i},
                  {'op': 'write', 'path': 'u%d' % i, 'off': 0, 'len': 3000, 'tag': 50 + i}]
    return {'cfg': c, 'setup': setup, 'clients': clients, 'rest': rest,
            'weak': weak, 'target': target, 'newhost': target != 'data' or rng.random() < 0.3,
            'keep': rng.random() < 0.3}


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        run.cfg['keep_cache'] = plan['keep']
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        if plan['target'] != 'data':
            return metadata(run, plan)
        bad = set()
        for op in plan['rest']:
            hit = D.damage(run.store, op, None)
            run.stats['fired']['damage-' + op['how']] = (
                run.stats['fired'].get('damage-' + op['how'], 0) + (hit is not None))
            bad |= hit or set()
        if plan['newhost']:
            run.machine = 'm1'
        kcfg = {'eio_ok': True, 'failsafe_ok': True, 'bad_objects': sorted(bad),
                'bad_weak': plan['weak'], 'read_chunk': 1024}
        run.cfg['damage_run'] = True
        res = scen.work(run, plan['clients'], 'work', kcfg=kcfg, dump=True)
        after(run, plan, res)
        return run.stats
    finally:
        run.close()


def after(run, plan, res):
    info = res.kernel['info']
    damaged = set(info['damaged'])
    bad = set(info['bad_objects'])
    check_dump(run, res.dump, damaged, plan['weak'])
    _seq, mounted, needs = scen.remote_params(run, 'p')
    if mounted:
        raise Violation('params', 'still marked as mounted after a clean unmount')
    if info['eio'] and not res.kernel['failsafe']:
        raise Violation('failsafe', 'EIO was returned, but failsafe mode is off')
    if res.kernel['failsafe'] and not needs:
        raise Violation('needs-fsck', 'errors were encountered, but the file system is not marked '
                        'for fsck')
    if not bad and needs:
        raise Violation('needs-fsck', 'marked for fsck without any damage')
    run.stats['probes']['eio-seen'] = run.stats['probes'].get('eio-seen', 0) + bool(info['eio'])
    run.stats['probes']['damaged-inodes'] = (
        run.stats['probes'].get('damaged-inodes', 0) + len(damaged))


def check_dump(run, dump, damaged, weak):
    model = run.model
    for ino, r in dump.items():
        m = model.inodes.get(ino)
        if m is None or not r['err']:
            continue
        if ino not in damaged:
            raise Violation('eio', 'undamaged inode %d: errno %d' % (ino, r['err']))
        # the blocks that could be read must be right
        if m.maybe or weak:
            m.loose = True
            continue
        for lo, hi in r['bad']:
            r['data'] = r['data'][:lo] + bytes(m.data[lo:hi]).ljust(hi - lo, b'\0') + r['data'][hi:]
        r['err'] = None
    for ino in damaged:
        if ino in model.inodes and weak:
            model.inodes[ino].loose = True
    tree.compare_exact(model, dump, 'read-back')


def metadata(run, plan):
    '''A fresh machine and damaged metadata'''
    meta = [k for k in run.store.keys() if k.startswith('s3ql_metadata_')]
    if not run.cfg['plain']:
        meta += ['s3ql_params']
    hits = set()
    for op in plan['rest']:
        keys = [k for k in meta if k in run.store.objects]
        hit = D.damage(run.store, op, None, keys=keys)
        hits |= hit or set()
        run.stats['fired']['metadata-' + op['how']] = (
            run.stats['fired'].get('metadata-' + op['how'], 0) + (hit is not None))
    run.machine = 'm1'
    res = run.mount([], dump=True, lat=[0.0], salt='fresh', allow_exc=True)
    if res.rc == 0:
        tree.compare_exact(run.model, res.dump, 'wrong-tree')
        run.stats['probes']['meta-harmless'] = 1
    else:
        run.stats['probes']['meta-refused'] = 1
        if res.kernel is not None:
            raise Violation('crash', 'the mount served requests and then failed')
    return run.stats
