'''C23: the local storage backend stores objects atomically.'''

import io
import os

from .. import comp, gen as G
from ..core import Violation, stream
from ..world import Run

PROP = 'C23'
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('One run: up to 6 tasks store, read, look up, list and delete up to 5 objects with all kinds of '
        'keys through the local directory backend, cancelled at any moment, while writes to the disk '
        'fail or are cut short; worker threads are interleaved with the other tasks at every access to '
        'a file. At generated instants (and source lines) the process is killed and another one reads '
        'everything and goes on. The history of every key (with the reads after the crash) must be '
        'linearizable as a register whose failed, cancelled or interrupted updates may or may not have '
        'happened; listings hold every object that existed throughout and nothing that did not. Afterwards '
        'object files are cut, overwritten or get bits flipped: only CorruptedObjectError may come of it.')
NOTE = ('Real backend code on a real directory; the simulator interleaves worker threads, decides the '
        'result of every write to a file and takes the crash snapshots. Losing data that the '
        'operating system has not written to the disk (power failure) is not covered: the backend '
        'does not promise that. One process at a time.')

KEYS = ['s3ql_data_1', 's3ql_data_2', 's3ql_data_12', 's3ql_data_123', 's3ql_data_1234', 's3ql_data_1235',
        's3ql_data_123456', 's3ql_data_1234567', 's3ql_data_123457', 's3ql_params', 's3ql_metadata_00_01', 's3ql_metadata_00_02',
        's3ql_a=b', 's3ql_a/b', 's3ql_a#b', 's3ql_a=2Fb', 's3ql_a.b', 's3ql_\u00e4 \u20ac', 's3ql_a#1-2.tmp',
        's3ql_data_1#2', 's3ql_data_a/b', 's3ql_data_ab=c', 's3ql_a%2F+ ', 's3ql_=3D', 's3ql_data_']
GROUPS = [KEYS[:9], ['s3ql_data_1', 's3ql_params', 's3ql_metadata_00_01', 's3ql_metadata_00_02'], KEYS]


def gen(rng, idx, tier):
    keys = rng.sample(rng.choice(GROUPS), rng.choice((1, 2, 3, 3)))
    ver = 0
    clients = []
    for _ in range(rng.choice((1, 2, 3, 4, 6))):
        ops = []
        for _ in range(rng.choice((1, 3, 5, 8))):
            k = rng.randrange(len(keys))
            how = G.wchoice(rng, [('write', 8), ('read', 6), ('delete', 2), ('lookup', 1.5), ('size', 1),
                                  ('contains', 1), ('list', 2), ('multi', 0.7)])
            op = {'op': how, 'key': k, 'think': rng.choice((0, 0, 0, 0.01, 0.3)),
                  'cancel': rng.choice((None, None, None, None, 0.0, 0.003, 0.1))}
            if how == 'write':
                ver += 1
                op.update(ver=ver, len=rng.choice((0, 1, 9, 100, 5000, 200_000)),
                          meta=rng.choice((0, 1, 50)), off=rng.choice((0, 0, 3)))
            elif how == 'list':
                full = keys[k]
                op['prefix'] = rng.choice(('', 's3ql_', 's3ql_data_', full, full[: rng.randrange(len(full) + 1)],
                                           full[:-1], 's3ql_metadata', 's3ql_data_99', 'x'))
            elif how == 'multi':
                op['keys'] = [rng.randrange(len(keys)) for _ in range(rng.choice((1, 2, 3)))]
            ops.append(op)
        clients.append(ops)
    plan = {'cfg': {'policy': rng.choice(('shuffle', 'shuffle', 'pct', 'lifo', 'fifo')),
                    'thread_yields': rng.random() < 0.85,
                    'thread_delay': rng.choice(([0.0], [0.0, 0.004], [0.0, 0.2])), 'stall': 0.0},
            'keys': keys, 'clients': clients, 'after': rng.random() < 0.5,
            'conns': rng.choice((1, 2, 4)), 'slash': rng.random() < 0.3,
            'delay': rng.choice((0, 0, 0, 0.01)), 'crash': [], 'disk': {}}
    if rng.random() < 0.55:
        plan['crash'] = G.crash_points(rng, rng.choice((1, 2, 3)),
                                       [('fwrite', 30), ('fopen', 8), ('thread', 20), ('rename', 8),
                                        ('thread-yield', 40), ('op', 25)], 150)
    if rng.random() < 0.4:
        for _ in range(rng.choice((1, 1, 2, 5))):
            plan['disk'][str(1 + rng.randrange(25))] = rng.choice((
                {'kind': 'short', 'frac': rng.random()}, {'kind': 'short', 'frac': 0.999},
                {'kind': 'enospc'}, {'kind': 'eio'}))
    plan['damage'] = [[rng.randrange(len(keys)), rng.choice(('cut', 'cut', 'flip', 'zero', 'junk')),
                       rng.choice((0, 1, 6, 7, 8, 9, 10, 11, 30, 100, 200, 10**6, rng.randrange(300))),
                       rng.randrange(8)] for _ in range(rng.choice((0, 2, 6)))]
    return plan


def payload(ver, key, length):
    rng = stream('c23', ver, key, length)
    return rng.randbytes(length)


def meta_of(op):
    return {'ver': op['ver'], 'len': op['len'], 'fill': 'x' * op['meta'], 'b': b'\0\xff', 'f': 1.5,
            'n': None, 't': True}


class Hist:
    '''Operations on every key: [start, end, kind, value, optional]'''

    def __init__(self):
        self.ops = {}
        self.t = 0
        self.sizes = {}  # (key, ver) -> size returned

    def begin(self, key, kind, val=None):
        self.t += 1
        rec = [self.t, None, kind, val, True]
        self.ops.setdefault(key, []).append(rec)
        return rec

    def end(self, rec, val=None, sure=True):
        self.t += 1
        rec[1] = self.t
        if rec[2] == 'read':
            rec[3] = val
        rec[4] = not sure


PRESENT = 'something'  # the answer only says that there is an object


def linearizable(recs, init=None):
    '''Is there an order of the operations that explains all reads?'''
    ops = [r for r in recs if not (r[2] == 'read' and (r[1] is None or r[4]))]
    end = lambda r: float('inf') if r[1] is None or r[4] else r[1]  # noqa: E731
    ops.sort(key=lambda r: r[0])
    n = len(ops)
    need = 0
    for i, r in enumerate(ops):
        if not r[4]:
            need |= 1 << i
    seen = set()
    todo = [(0, init)]
    while todo:
        done, val = todo.pop()
        if need & ~done == 0:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        lim = min((end(ops[i]) for i in range(n) if not done >> i & 1), default=0)
        for i in range(n):
            if done >> i & 1:
                continue
            r = ops[i]
            if r[0] > lim:
                break
            if r[2] == 'read':
                if r[3] == val or (r[3] == PRESENT and val is not None):
                    todo.append((done | 1 << i, val))
            else:
                todo.append((done | 1 << i, r[3]))
    return False


def check_history(h):
    for key, recs in sorted(h.ops.items()):
        if not linearizable(recs):
            raise Violation('history', 'the operations on %r are not explained by any order: %s'
                            % (key, ', '.join('%s-%s %s %r%s' % (r[0], r[1], r[2], r[3], '?' if r[4] else '')
                                              for r in sorted(recs, key=lambda r: r[0]))))


def store_dir(run):
    d = os.path.join(run.cachedir(), 'store')
    os.makedirs(d, exist_ok=True)
    return d


async def make(plan, run):
    from s3ql.backends.local import AsyncBackend

    b = await AsyncBackend.create(
        storage_url='local://' + os.path.join(run.cachedir(), 'store') + ('/' if plan['slash'] else ''),
        backend_options={}, max_connections=plan['conns'])
    b.request_delay = plan['delay']
    return b


class Reading(io.BytesIO):
    '''The source of a write; hands over between the pieces'''

    sim = None

    def read(self, n=-1):
        self.sim.thread_yield()
        return super().read(n)


async def read(sim, b, key):
    '''Version stored, None, or a violation'''
    from s3ql.backends.common import NoSuchObject

    out = Reading()
    out.sim = sim
    try:
        meta = await b.readinto_fh(key, out)
    except NoSuchObject:
        return None
    check_meta(sim, key, meta)
    data = out.getvalue()
    if data != payload(meta['ver'], key, meta['len']):
        comp.fail(sim, 'mixed', 'read of %r gives %d bytes with the metadata of version %d, which had %d'
                  % (key, len(data), meta['ver'], meta['len']))
    return meta['ver']


def check_meta(sim, key, meta):
    try:
        op = {'ver': meta['ver'], 'len': meta['len'], 'meta': len(meta['fill'])}
        ok = meta == meta_of(op)
    except (KeyError, TypeError):
        ok = False
    if not ok:
        comp.fail(sim, 'metadata', 'object %r has metadata %r' % (key, meta))


def client(sim, plan, h, b, probe):
    import errno
    import trio
    from s3ql.backends.common import NoSuchObject

    keys = plan['keys']

    async def do(op):
        k = keys[op['key']]
        how = op['op']
        sim.ev('op', how, k)
        if how == 'write':
            rec = h.begin(k, 'write', op['ver'])
            fh = Reading(payload(op['ver'], k, op['len']))
            fh.sim = sim
            fh.seek(op['off'] if op['off'] < op['len'] else 0)
            try:
                n = await b.write_fh(k, fh, meta_of(op))
            except OSError as exc:
                if exc.errno not in (errno.ENOSPC, errno.EIO):
                    raise
                h.end(rec, sure=False)
                probe('write-failed')
            else:
                h.end(rec)
                h.sizes[k, op['ver']] = n
                probe('written')
        elif how == 'read':
            rec = h.begin(k, 'read')
            h.end(rec, await read(sim, b, k))
            probe('read')
        elif how == 'lookup':
            rec = h.begin(k, 'read')
            try:
                meta = await b.lookup(k)
            except NoSuchObject:
                h.end(rec, None)
            else:
                check_meta(sim, k, meta)
                h.end(rec, meta['ver'])
        elif how == 'contains':
            rec = h.begin(k, 'read')
            h.end(rec, PRESENT if await b.contains(k) else None)
        elif how == 'size':
            rec = h.begin(k, 'read')
            try:
                n = await b.get_size(k)
            except NoSuchObject:
                h.end(rec, None)
            else:
                h.end(rec, PRESENT)
                if h.sizes and n not in h.sizes.values() and not any(
                        r[4] and r[2] == 'write' for r in h.ops[k]):
                    comp.fail(sim, 'size', 'size %d of %r is of no version' % (n, k))
        elif how == 'delete':
            rec = h.begin(k, 'write', None)
            await b.delete(k)
            h.end(rec)
            probe('deleted')
        elif how == 'multi':
            ks = [keys[i] for i in op['keys']]
            recs = [h.begin(x, 'write', None) for x in ks]
            left = list(ks)
            await b.delete_multi(left)
            if left:
                comp.fail(sim, 'delete', 'delete_multi left %r' % left)
            for r in recs:
                h.end(r)
        else:
            await listing(sim, h, b, op['prefix'], keys)
            probe('listed')

    async def run(ops):
        for op in ops:
            if op['think']:
                await trio.sleep(op['think'])
            if op['cancel'] is not None:
                with trio.move_on_after(op['cancel']) as sc:
                    await do(op)
                if sc.cancelled_caught:
                    probe('cancelled')
            else:
                await do(op)

    return run


async def listing(sim, h, b, prefix, keys):
    recs = [(k, h.begin(k, 'read')) for k in keys]
    t0 = h.t
    got = []
    async for k in b.list(prefix):
        got.append(k)
    if len(set(got)) != len(got):
        comp.fail(sim, 'list', 'listing %r holds keys twice: %r' % (prefix, sorted(got)))
    for k in got:
        if k not in keys or not k.startswith(prefix):
            comp.fail(sim, 'list', 'listing %r holds %r' % (prefix, k))
    for k, rec in recs:
        if not k.startswith(prefix):
            h.ops[k].remove(rec)
            continue
        # a listing is not atomic, but tells for each key whether it was there at some moment
        h.end(rec, PRESENT if k in got else None)
    return t0


async def audit(sim, plan, h, b):
    '''At rest: everything must agree'''
    for k in plan['keys']:
        rec = h.begin(k, 'read')
        v = await read(sim, b, k)
        h.end(rec, v)
        if await b.contains(k) != (v is not None):
            comp.fail(sim, 'contains', 'contains(%r) disagrees with reading it' % k)
        if v is not None:
            n = await b.get_size(k)
            want = h.sizes.get((k, v))
            if want is not None and want != n:
                comp.fail(sim, 'size', 'size %d of %r, but writing it returned %d' % (n, k, want))
            meta = await b.lookup(k)
            check_meta(sim, k, meta)
            if meta['ver'] != v:
                comp.fail(sim, 'lookup', 'lookup(%r) gives version %r' % (k, meta['ver']))
        for p in (k, k[:-1], k[: len(k) // 2]):
            await listing(sim, h, b, p, plan['keys'])
    await listing(sim, h, b, '', plan['keys'])
    check_history_sim(sim, h)


async def damaged(sim, plan, h, b, run, probe):
    '''Object files damaged at rest must be reported as such'''
    from s3ql.backends.common import CorruptedObjectError, NoSuchObject

    base = os.path.join(run.cachedir(), 'store')
    for i, kind, pos, bit in plan['damage']:
        k = plan['keys'][i]
        path = b._key_to_path(k)
        assert path.startswith(base)
        try:
            with open(path, 'rb') as fh:
                old = fh.read()
        except FileNotFoundError:
            continue
        head = 9 + int.from_bytes(old[7:9], 'little')
        pos = min(pos, len(old) - 1)
        if kind == 'cut':
            new = old[:pos]
        elif kind == 'flip':
            new = old[:pos] + bytes([old[pos] ^ 1 << bit]) + old[pos + 1:]
        elif kind == 'zero':
            new = old[:pos] + bytes(len(old) - pos)
        else:
            new = stream('c23junk', pos).randbytes(pos)
        with open(path, 'wb') as fh:
            fh.write(new)
        probe('damaged')
        lost = pos < head and (kind != 'flip' or pos < 7)
        for how in ('lookup', 'read'):
            out = io.BytesIO()
            try:
                meta = await (b.lookup(k) if how == 'lookup' else b.readinto_fh(k, out))
            except CorruptedObjectError:
                probe('reported')
                continue
            except NoSuchObject:
                comp.fail(sim, 'damage', '%s of %r says that there is no such object, but it is damaged (%s at %d)'
                          % (how, k, kind, pos))
            except Exception as exc:
                comp.fail(sim, 'damage', '%s of %r whose file is damaged (%s at %d of %d) raises %r'
                          % (how, k, kind, pos, len(old), exc))
            if lost:
                comp.fail(sim, 'damage', '%s of %r gives %r though its file is damaged (%s at %d of %d)'
                          % (how, k, meta, kind, pos, len(old)))
            if pos >= head and how == 'read' and out.getvalue() != new[head:]:
                comp.fail(sim, 'damage', 'reading %r does not give what is stored' % k)
        with open(path, 'wb') as fh:
            fh.write(old)


def check_history_sim(sim, h):
    try:
        check_history(h)
    except Violation as v:
        sim.abort(v)


def probe_for(sim):
    def probe(what, n=1):
        sim.probes[what] = sim.probes.get(what, 0) + n

    return probe


def execute(plan, holder):
    run = Run(plan)
    holder.update(run=run, stats=run.stats, logs=run.fault_logs)
    try:
        store_dir(run)
        run.model = Hist()

        def work(run_, sim, spec, d):
            import trio

            async def top():
                b = await make(plan, run_)
                h = run_.model
                one = client(sim, plan, h, b, probe_for(sim))
                async with trio.open_nursery() as n:
                    for ops in plan['clients']:
                        n.start_soon(one, ops)
                sim.disk_faults = {}
                await audit(sim, plan, h, b)

            trio.run(top)

        def hurt(run_, sim, spec, d):
            import trio

            async def top():
                await damaged(sim, plan, run_.model, await make(plan, run_), run_, probe_for(sim))

            trio.run(top)

        def after(run_, sim, spec, d):
            import trio

            async def top():
                h = run_.model
                h.t += 1
                b = await make(plan, run_)
                await audit(sim, plan, h, b)
                if plan['after']:
                    one = client(sim, plan, h, b, probe_for(sim))
                    new = [[dict(op, ver=op['ver'] + 1000) if op['op'] == 'write' else op for op in ops]
                           for ops in plan['clients']]
                    async with trio.open_nursery() as n:
                        for ops in new:
                            n.start_soon(one, ops)
                    await audit(sim, plan, h, b)

            trio.run(top)

        res = run.inc('local', [], func=work, salt='work', crash=plan['crash'], disk=plan['disk'])
        if plan['damage']:
            run.inc('local', [], func=hurt, salt='hurt')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            run.inc('local', [], func=after, salt='after%d' % snap['id'])
        return run.stats
    finally:
        run.close()
