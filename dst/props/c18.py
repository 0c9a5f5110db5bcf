'''C18: bulk deletion reports exactly what was not deleted.'''

import io
import os

from .. import comp, gen as G
from .c08 import BUGS, FOREIGN, compress_spec

PROP = 'C18'
RUNS = {'quick': 2200, 'thorough': 40000}
RULE = ('One run: objects with all kinds of keys are deleted with delete_multi() through one of the '
        'backends (local, S3, S3-compatible, B2, Swift with and without bulk deletion, Google Storage, with '
        'or without the encryption layer), several calls on disjoint sets at once, in batches of scaled '
        'size and sometimes of the real one. Some keys do not exist; single keys of a bulk request fail with '
        'temporary or permanent errors, the bulk operation breaks off, connections fail at any byte, '
        'answers are lost, calls are cancelled. After every call, however it ends, a key that is not in '
        'the list any more must be gone; a key that is still there must exist, or its deletion must not '
        'have been confirmed; a normal return leaves nothing; temporary errors alone never make it fail; '
        'a permanent one is raised; no other object is touched. Deleting the rest then succeeds.')
NOTE = ('Real backends, s3ql.http, h11, httpcore; the network and the storage services are simulated. The '
        'batch size of the S3 backends (MAX_KEYS) is set to a small value in most runs.')

NAMES = ['%d', 'data_%d', 'a=b%d', 'a/b%d', 'a b+%d', 'a&b<c>%d', 'a%%2F%d', "'\"%d", 'a#%d?x=y', '\u00e4%d', 'a%d~.']


def gen(rng, idx, tier):
    from .. import net, servers

    cfg = servers.gen_server(rng, servers.KINDS + ['local', 's3c4', 'swift'])
    if cfg['kind'] == 'local':
        n = {'lat': [0.0], 'pieces': [0], 'faults': {}}
    nk = rng.choice((1, 2, 5, 8, 20, 40))
    big = rng.random() < 0.02
    if big:
        nk = rng.choice((999, 1000, 1001, 2003))
    form = NAMES[: 2 if big else len(NAMES)]
    keys = sorted({'s3ql_' + rng.choice(form) % i for i in range(nk)})
    rng.shuffle(keys)
    nc = rng.choice((1, 1, 2, 3))
    calls = [[] for _ in range(nc)]
    for i, k in enumerate(keys):
        calls[i % nc].append(i)
    perm = rng.random() < 0.35
    batch = 1000 if big else rng.choice((1, 2, 3, 5, 1000))
    nreq = nk * 2 if nk < 50 else 100
    if cfg['kind'] != 'local':
        n = net.gen_net(rng, nreq + 10)
        n['dns_down'] = True
        for k, f in list(n['faults'].items()):
            if f['kind'] == 'corrupt':
                del n['faults'][k]
            elif perm and f['kind'] in ('error', 'early', 'reject') and rng.random() < 0.3:
                f['perm'] = True
    multi = {}
    if rng.random() < 0.6:
        for i in range(1, rng.choice((2, 4, 8))):
            if rng.random() < 0.6:
                multi[str(i)] = {str(rng.randrange(7)): rng.choice(
                    ('AccessDenied', 'InternalError', 'SlowDown', 'NoSuchKey') if perm
                    else ('InternalError', 'SlowDown', 'NoSuchKey')) for _ in range(rng.choice((1, 2, 4)))}
                if cfg['kind'].startswith('swift'):
                    multi[str(i)] = {j: rng.choice(
                        ('503 Service Unavailable', '401 Unauthorized', 'broken') +
                        (('403 Forbidden', '409 Conflict') if perm else ()))
                        for j in multi[str(i)]}
    return {'cfg': {'policy': rng.choice(('shuffle', 'shuffle', 'pct', 'lifo', 'fifo')),
                    'thread_delay': rng.choice(([0.0], [0.0, 0.004]))},
            'server': cfg, 'keys': keys, 'calls': calls, 'batch': batch, 'multi': multi,
            'absent': rng.choice((0.0, 0.0, 0.2, 0.6, 1.0)), 'net': n,
            'cancel': [rng.choice((None,) * 5 + (0.0, 0.01, 0.05, 0.5)) for _ in calls],
            'conns': rng.choice((1, 2, 4)), 'foreign': rng.sample(FOREIGN, rng.choice((0, 2, 5))),
            'wrap': rng.random() < 0.2, 'progress': rng.random() < 0.5}


def execute(plan, holder):
    return comp.run(plan, holder, 'multi', body)


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from leaves(e)
    else:
        yield exc


# Faults after which the client knows the outcome of a request that was carried out
KNOWN = (None, 'close', 'idle-close', 'idle-408', 'info')


async def body(sim, plan, probe):
    import trio
    from .. import net as N
    from .. import servers as S
    from ..core import stream

    cfg = plan['server']
    keys = plan['keys']
    prefix = cfg['prefix']
    rng = stream(sim.seed, 'absent')
    async with trio.open_nursery() as nursery:
        net = N.Net(sim, nursery, plan['net'], probe)
        bucket = S.Bucket()
        srvs = []
        perms = []
        if cfg['kind'] == 'local':
            from s3ql.backends.local import AsyncBackend

            os.makedirs('store')
            raw = await AsyncBackend.create(storage_url='local://' + os.path.abspath('store'),
                                            backend_options={}, max_connections=plan['conns'])
        else:
            if cfg['kind'] in ('s3c4', 's3', 'b2'):
                from s3ql.backends import s3c4

                if hasattr(s3c4, 'MAX_KEYS'):
                    s3c4.MAX_KEYS = plan['batch']
            raw, srvs = await S.make(net, bucket, cfg, plan['conns'])
        b = raw
        if plan['wrap']:
            from s3ql.backends.comprenc import AsyncComprencBackend

            b = await AsyncComprencBackend.create(b'secret', compress_spec('zlib'), raw)

        local = cfg['kind'] == 'local'
        foreign = {}
        exist = set()
        net.healthy = True
        for k in keys:
            if rng.random() >= plan['absent']:
                exist.add(k)
        neighbours = ['s3ql_neighbour', 's3ql_']
        if local:
            for k in sorted(exist) + neighbours:
                await raw.write_fh(k, io.BytesIO(b'x'), {})
        else:
            hdr = {} if cfg['kind'] == 'gs' else []
            for k in exist:
                bucket.objs[prefix + k] = (b'x', hdr, 1)
            for k in [prefix + k for k in neighbours] + [
                    x for x in plan['foreign'] if x.removeprefix(prefix) not in keys]:
                bucket.objs.setdefault(k, (b'y', hdr, 1))
            foreign = {k: v for k, v in bucket.objs.items() if k.removeprefix(prefix) not in exist
                       or not k.startswith(prefix)}
        net.healthy = False

        async def present():
            if local:
                return {k async for k in raw.list('')}
            return {k[len(prefix) :] for k in bucket.objs if k.startswith(prefix)}

        vague = set()  # keys whose deletion the client may not know about
        requests = {}  # connection -> request

        def on_event(what, key):
            '''The service deletes an object'''

        def on_request(c, req, exc):
            if req is None:
                comp.fail(sim, 'protocol', 'the server got an invalid request: %s' % exc)
            f = plan['net']['faults'].get(str(req.num)) if not net.healthy else None
            req.fault = f['kind'] if f else None
            req.before = None

        def on_error(req, f):
            if f.get('perm'):
                perms.append((f['kind'], req.method, req.target))

        for s in srvs:
            s.on_error = on_error
            s.multi = {int(k): v for k, v in plan['multi'].items()}
            orig = s.handle

            async def handle(c, req, orig=orig):
                before = set(bucket.objs)
                r = await orig(c, req)
                gone = before - set(bucket.objs)
                broken = b'500 Internal Error' in r.body or b'Max delete failures' in r.body
                if req.fault not in KNOWN or broken:
                    vague.update(k[len(prefix) :] for k in gone)
                return r

            s.handle = handle
        net.on_request = on_request

        done = set()

        async def call(which, healthy=False, todo=None):
            want = [keys[i] for i in plan['calls'][which]] if todo is None else list(todo)
            left = list(want)
            n0 = len(perms)
            exc = None
            cancelled = False
            sim.ev('op', 'delete_multi', which, len(want))
            with trio.move_on_after(plan['cancel'][which] if plan['cancel'][which] is not None and not healthy
                                    else float('inf')) as sc:
                try:
                    await b.delete_multi(left, log_progress=plan['progress'])
                except trio.Cancelled:
                    raise
                except BaseExceptionGroup as e:
                    exc = e
                    if any(isinstance(x, trio.Cancelled) for x in leaves(e)):
                        raise
                except Exception as e:
                    exc = e
                else:
                    done.add(which)
            cancelled = sc.cancelled_caught
            now = await present()
            sim.ev('op-end', which, repr(exc)[:100], len(left))
            if len(set(left)) != len(left) or not set(left) <= set(want):
                comp.fail(sim, 'list', 'the list of remaining keys holds others: %r' % (set(left) - set(want),))
            hidden = (set(want) - set(left)) & now
            if hidden:
                comp.fail(sim, 'hidden', '%d objects still exist, but are reported as deleted (%r); %r'
                          % (len(hidden), min(hidden), exc))
            if cancelled:
                probe('cancelled')
                return left
            known = set(left) - now - vague
            known &= exist
            bulk = cfg['kind'] in ('s3c4', 's3', 'b2') or cfg['kind'].startswith('swift') \
                and cfg['bulk'] and cfg['info']
            if not bulk and exc is not None and len(known) < plan['conns']:
                known = ()  # answers to parallel requests may have been in flight
            if known:
                comp.fail(sim, 'unreported', '%d objects have been deleted, but are reported as remaining (%r); %r'
                          % (len(known), min(known), exc))
            codes = [x for x in ('multi-AccessDenied', 'multi-403 Forbidden', 'multi-409 Conflict')
                     if x in sim.faults_fired]
            if exc is not None:
                probe('failed')
                for x in leaves(exc):
                    if isinstance(x, BUGS):
                        comp.fail(sim, 'exception', 'delete_multi failed with %r' % x)
                if not codes and len(perms) == n0:
                    comp.fail(sim, 'exception', 'delete_multi failed without a permanent error: %r' % exc)
            else:
                probe('complete')
                if left:
                    comp.fail(sim, 'leftover', 'delete_multi returns normally, but leaves %d keys (%r)'
                              % (len(left), min(left)))
                if len(plan['calls']) == 1 and any(p[0] == 'error' for p in perms[n0:]) \
                        and 'net-idle-408' not in sim.faults_fired:
                    # (an error of a single key may go away when another, temporary one leads to a retry)
                    comp.fail(sim, 'swallowed', 'delete_multi succeeds in spite of a permanent error: %r'
                              % (perms[n0:],))
            return left

        rest = [None] * len(plan['calls'])

        async def one(i):
            rest[i] = await call(i)

        async with trio.open_nursery() as users:
            for i in range(len(plan['calls'])):
                users.start_soon(one, i)
        net.healthy = True
        # what is left can be deleted now
        for i, left in enumerate(rest):
            if left:
                await call(i, True, left)
                probe('second')
        now = await present()
        bad = now & set(keys)
        if bad:
            comp.fail(sim, 'not-deleted', 'objects still exist: %r' % sorted(bad)[:3])
        if local:
            if now != set(neighbours):
                comp.fail(sim, 'foreign', 'other objects are gone: %r' % now)
        elif bucket.objs != foreign:
            comp.fail(sim, 'foreign', 'other objects were touched: %r' % sorted(set(foreign) ^ set(bucket.objs))[:3])
        await raw.close()
        nursery.cancel_scope.cancel()
