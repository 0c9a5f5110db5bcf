'''C14: s3ql_verify lists exactly the missing and the corrupted objects.'''

import bz2
import hashlib
import lzma
import os
import zlib

from .. import damage as D
from .. import gen as G
from .. import scen, tree, world
from ..core import Violation
from .c07 import one

PROP = 'C14'
RUNS = {'quick': 600, 'thorough': 16000}
RULE = ('One run: fill a file system, unmount it, lose, damage, swap or forge any number of stored '
        'objects, then run s3ql_verify (with and without --data, from the local or a downloaded copy '
        'of the metadata, with 1-8 workers, any --start-with) under latency and temporary failures. '
        'The lists must be exactly the missing and corrupted objects, each once; the exit status must '
        'say whether there are any, and no run that fails to check something may end with success. '
        'In half of the runs remove_objects.py is given what was listed (and killed and repeated): it has '
        'to remove exactly that, and after fsck.s3ql nothing may be missing.')
NOTE = ('Oracle: the metadata tables read with plain SQL and an independent decoder of unencrypted '
        'objects (zlib, bz2, lzma of the standard library). For encrypted objects every change of '
        'content or signed metadata counts as corruption; objects with data appended and objects with '
        'altered unsigned metadata may be listed or not.')

KINDS = ['lose', 'lose', 'lose', 'flip', 'flip', 'zero', 'truncate', 'empty', 'append', 'swap', 'foreign',
         'data-only', 'meta-only', 'nometa', 'plaintext']


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=3, dirs=['d0'], tags=6, blocks=4)
    c = G.cfg(rng, plain=rng.random() < 0.5, lat=rng.choice(([0.0], [0.0, 0.01, 0.2], [0.01, 1.0], [0.0, 20.0])),
              conns=rng.choice((1, 2, 3)), threads=rng.choice((1, 2, 4)),
              compress=rng.choice(('none', 'zlib-6', 'bzip2-6', 'lzma-6')))
    setup = G.setup_ops(rng, g, 1.0, 0.6)
    many = rng.random() < 0.25
    if many and rng.random() < 0.6:
        c['conns'], c['threads'] = 1, rng.choice((1, 1, 2))
    for i in range(rng.choice((0, 1, 3, 10)) if not many else 30):
        setup += [{'op': 'create', 'path': 'u%d' % i},
                  {'op': 'write', 'path': 'u%d' % i, 'off': 0, 'len': rng.choice((1, 700, 1024, 3000)),
                   'tag': 50 + i}]
    work = g.ops([('write', 5), ('truncate', 2), ('unlink', 3), ('drop', 1)], rng.choice((0, 5, 15)))
    n = rng.choice((0, 1, 1, 2, 4, 8, 30))
    kinds = KINDS
    if many:
        # nearly everything is damaged, all in the same way
        n, kinds = rng.choice((15, 40)), [rng.choice(KINDS)]
    dmg = [one(rng, kinds) for _ in range(n)]
    return {'cfg': c, 'setup': setup, 'work': work, 'dmg': dmg, 'data': rng.random() < 0.65,
            'start': rng.choice((0, 0, 0, 1, 2, 5, 1000)), 'newhost': rng.random() < 0.5,
            'faults': G.temp_faults(rng), 'perm': rng.random() < 0.1, 'permnth': rng.randrange(1, 12),
            'extra': rng.randrange(3), 'remove': rng.random() < 0.5,
            'eol': rng.choice(('\n', '', '\n')), 'rfaults': G.temp_faults(rng),
            'crash': [[rng.choice(('req', 'apply', 'applied')), rng.randrange(1, 12),
                       rng.choice((0, 1, 3))] for _ in range(rng.choice((0, 1, 2)))]}


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        scen.work(run, [plan['setup'] + plan['work']], 'setup', lat=[0.0])
        check(run, plan)
        return run.stats
    finally:
        run.close()


def check(run, plan):
    db = tree.open_db(tree.db_path(run))
    rows = list(db.execute('SELECT id, hash, length FROM objects ORDER BY id'))
    db.close()
    before = {k: (o.data, dict(o.meta)) for k, o in run.store.objects.items()}
    hows = {}
    for op in plan['dmg']:
        hit = D.damage(run.store, op)
        run.stats['fired']['damage-' + op['how']] = (
            run.stats['fired'].get('damage-' + op['how'], 0) + (hit is not None))
        for i in hit or ():
            hows.setdefault(i, []).append(op['how'])
    for i in range(plan['extra']):
        # objects that the metadata does not know are none of its business
        run.store.put('s3ql_data_%d' % (900 + i), b'unreferenced', {})
    missing, must, may = [], set(), set()
    for num, hash_, length in rows[plan['start']:]:
        key = 's3ql_data_%d' % num
        obj = run.store.objects.get(key)
        if obj is None:
            missing.append(key)
            continue
        same = (obj.data, dict(obj.meta)) == before[key]
        v = False if same else judge(run, obj, before[key], hash_, length, plan['data'])
        if v:
            must.add(key)
        elif v is None:
            may.add(key)
    faults = dict(plan['faults'])
    if plan['perm']:
        faults['rules'] = [{'kind': 'get' if plan['data'] else 'head', 'prefix': 's3ql_data_',
                            'nth': plan['permnth'], 'fault': {'kind': 'perm'}}]
    if plan['newhost']:
        run.machine = 'm1'
    d = os.path.join(run.dir, 'lists')
    os.mkdir(d)
    m, c = d + '/missing', d + '/corrupted'
    extra = ['--cachedir', run.cachedir(), '--missing-file', m, '--corrupted-file', c]
    extra += ['--max-connections', str(plan['cfg']['conns']), '--max-threads',
              str(plan['cfg']['threads'])]
    if plan['data']:
        extra.append('--data')
    if plan['start']:
        extra += ['--start-with', str(plan['start'])]
    state = {k: (o.data, dict(o.meta)) for k, o in run.store.objects.items()}
    res = run.verify(extra=extra, faults=faults, salt='verify', allow_exc=plan['perm'])
    if {k: (o.data, dict(o.meta)) for k, o in run.store.objects.items()} != state:
        raise Violation('modified', 's3ql_verify changed the stored objects')
    if any(f[1]['kind'] == 'perm' for f in res.fault_log):
        run.stats['probes']['perm-failure'] = 1
        if res.rc in (0, 46):
            raise Violation('success', 'exit status %s although an object could not be checked' % res.rc)
        return
    got = [lines(m), lines(c)]
    found = bool(got[0] or got[1])
    run.stats['probes']['listed-missing'] = len(got[0])
    run.stats['probes']['listed-corrupted'] = len(got[1])
    for what, lst in (('missing', got[0]), ('corrupted', got[1])):
        if len(set(lst)) != len(lst):
            raise Violation('twice', '%s objects listed more than once: %s' % (what, sorted(lst)))
    if set(got[0]) != set(missing):
        raise Violation('missing', 'listed %s, lost are %s' % (sorted(got[0]), sorted(missing)),
                        stderr=res.err[-1500:])
    cor = set(got[1])
    if not must <= cor:
        raise Violation('corrupted', 'not listed: %s'
                        % [(k, hows.get(int(k[10:]))) for k in sorted(must - cor)])
    if not cor <= must | may:
        raise Violation('corrupted', 'wrongly listed: %s'
                        % [(k, hows.get(int(k[10:]))) for k in sorted(cor - must - may)],
                        stderr=res.err[-1500:])
    if res.rc != (46 if found else 0):
        raise Violation('exit-status', 'exit status %s, %d missing, %d corrupted'
                        % (res.rc, len(got[0]), len(got[1])), stderr=res.err[-1500:])
    if not found and (os.path.exists(m) or os.path.exists(c)):
        raise Violation('leftover', 'empty lists were left behind')
    if found and plan['remove']:
        remove(run, plan, got[0] + got[1], may if plan['data'] and not plan['start'] else None)


def remove(run, plan, listed, may):
    '''The documented way on: remove what is listed, let fsck.s3ql find out, and all is well'''
    path = os.path.join(run.dir, 'lists', 'all')
    with open(path, 'w') as fh:
        fh.write('\n'.join(listed) + plan['eol'])
    want = {k: v for k, v in contents(run).items() if k not in listed}
    args = ['--authfile', os.path.join(run.dir, 'auth'), world.URL, path]

    def rm(salt, crash=()):
        res = run.contrib('remove_objects', args, faults=plan['rfaults'], salt=salt, crash=crash)
        scen.expect_rc(res, 'remove_objects.py')
        if contents(run) != want:
            raise Violation('removed', 'remove_objects.py was given %s; missing in addition: %s, still '
                            'there: %s' % (sorted(listed), sorted(set(want) - set(contents(run))),
                                           sorted(set(contents(run)) - set(want))))
        return res

    def repair(salt):
        scen.expect_rc(run.fsck(extra=('--batch', '--force'), salt='fsck' + salt), 'fsck.s3ql', (0, 128))
        scen.fsck_clean(run, 'again' + salt, 'after removing the damaged objects')
        d = os.path.join(run.dir, 'lists')
        m, c = d + '/missing' + salt, d + '/corrupted' + salt
        extra = ['--cachedir', run.cachedir(), '--missing-file', m, '--corrupted-file', c]
        res = run.verify(extra=extra + (['--data'] if plan['data'] else []), salt='verify' + salt)
        got = [lines(m), lines(c)]
        if got[0] or (may is not None and set(got[1]) - may):
            raise Violation('repaired', 'still listed after removing the damaged objects and fsck.s3ql: '
                            '%s' % got, stderr=res.err[-1500:])

    res = rm('remove', plan['crash'])
    repair('-r')
    for snap in res.snaps:
        run.enter_snapshot(snap)
        rm('remove%d' % snap['id'])
        repair('-r%d' % snap['id'])


def contents(run):
    return {k: (o.data, dict(o.meta)) for k, o in run.store.objects.items()}


def lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return fh.read().split()


def judge(run, obj, orig, hash_, length, full):
    '''True: must be listed, False: must not, None: either is right'''
    odata, ometa = orig
    if not run.cfg['plain']:
        if obj.meta != ometa:
            return True
        if not full:
            return False
        if obj.data.startswith(odata):
            return None
        return True
    meta = obj.meta
    if not isinstance(meta, dict) or not {'format_version', 'encryption', 'compression', 'data'} <= set(meta):
        return True
    if not full:
        return False
    alg = meta['compression']
    d = obj.data
    rest = b''
    try:
        if alg == 'None':
            out = d
        elif alg == 'ZLIB':
            o = zlib.decompressobj()
            out = o.decompress(d)
        elif alg == 'BZIP2':
            o = bz2.BZ2Decompressor()
            out = o.decompress(d)
        elif alg == 'LZMA':
            o = lzma.LZMADecompressor()
            out = o.decompress(d)
        else:
            return None
        if alg != 'None':
            if not o.eof:
                return True
            rest = o.unused_data
    except (zlib.error, OSError, lzma.LZMAError, EOFError, ValueError, MemoryError):
        return True
    if len(out) != length or hashlib.sha256(out).digest() != hash_:
        return True
    return None if rest else False
