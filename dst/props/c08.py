'''C08: storage operations over a faulty network are retried and exact.'''

import io

from .. import comp, gen as G
from ..core import stream
from .c23 import PRESENT, Hist, check_history_sim

PROP = 'C08'
RUNS = {'quick': 2200, 'thorough': 40000}
RULE = ('One run: up to 4 tasks store, read, look up, list and delete objects through one storage backend '
        '(S3, S3-compatible with both signatures, B2, Swift with v1 and Keystone authentication, Google '
        'Storage) that talks HTTP to a simulated service. Connections are refused, hang, are cut, reset, '
        'stalled or closed while idle at any byte; answers are lost after the request took effect, data '
        'is flipped on unencrypted connections, tokens expire, every temporary error of the service is '
        'returned before or after the body was sent, with all kinds of retry-after. Listings come in '
        'small or empty pages. With temporary faults only, every operation must succeed; the history of '
        'every key must be linearizable with complete versions only; listings hold every object that '
        'existed throughout and nothing that did not. A permanent error must be reported.')
NOTE = ('Real backends, s3ql.http, h11, httpcore; TCP and TLS are simulated and the services are small '
        'models (they check signatures, hosts and checksums). One writer per key, as in S3QL. Requests '
        'the client has given up never take effect later. Region discovery (S3, B2) is without faults.')

KEYS = ['s3ql_data_1', 's3ql_data_2', 's3ql_data_12', 's3ql_data_123', 's3ql_params', 's3ql_metadata_00_01',
        's3ql_a=b', 's3ql_a/b', 's3ql_a b+', 's3ql_a&b<c>', 's3ql_a%2F', "s3ql_'\"", 's3ql_a.b~', 's3ql_#1?x=y']
FOREIGN = ['other', 's3ql_data_77', 'my/fs', 'my/fs-s3ql_data_1', 'pr', 'zz', 'my/g', 'pref_']

BUGS = (AssertionError, TypeError, AttributeError, LookupError, NameError, SyntaxError, UnboundLocalError)


def gen(rng, idx, tier):
    from .. import net, servers

    nc = rng.choice((1, 1, 2, 3, 4))
    keys = rng.sample(KEYS, rng.choice((1, 2, 3, 4)))
    cfg = servers.gen_server(rng)
    perm = rng.random() < 0.2
    if perm:
        nc = 1
    ver = 0
    clients = []
    total = 0
    for c in range(nc):
        ops = []
        own = [i for i in range(len(keys)) if i % nc == c]
        for _ in range(rng.choice((1, 3, 5, 8))):
            how = G.wchoice(rng, [('write', 8), ('read', 7), ('delete', 2), ('lookup', 1.5), ('size', 1),
                                  ('contains', 1), ('list', 2), ('multi', 0.7)])
            if how in ('write', 'delete', 'multi') and not own:
                how = 'read'
            k = rng.choice(own) if how in ('write', 'delete') else rng.randrange(len(keys))
            op = {'op': how, 'key': k, 'think': rng.choice((0, 0, 0, 0.05, 30.0)),
                  'cancel': rng.choice((None,) * 8 + (0.0, 0.01, 0.1, 3.0))}
            if how == 'write':
                ver += 1
                op.update(ver=ver, len=rng.choice((0, 1, 100, 5000, 70_000, 200_000)),
                          meta=rng.choice((0, 1, 50, 200)), file=rng.random() < 0.3)
            elif how == 'read':
                op.update(off=rng.choice((0, 0, 7)), file=rng.choice((0, 0, 0, 1, 1, 2)))
            elif how == 'list':
                full = keys[k]
                op['prefix'] = rng.choice(('', 's3ql_', 's3ql_data_', full, full[:-1], 's3ql_data_99', 'x'))
            elif how == 'multi':
                op['keys'] = [i for i in own if rng.random() < 0.7] or own[:1]
            ops.append(op)
        total += len(ops)
        clients.append(ops)
    n = net.gen_net(rng, total * 2 + 6)
    n['dns_down'] = True  # otherwise the name is taken to be wrong
    plain = (cfg['kind'] in ('s3c', 's3c4', 's3') and not cfg['ssl']
             or cfg['kind'] in ('swift', 'swiftks') and cfg['port'] is not None)
    if plain and rng.random() < 0.4:
        for _ in range(rng.randint(1, 4)):
            n['faults'][str(rng.randrange(total * 2 + 6))] = net.one_fault(rng, ['corrupt'])
    corrupt = False
    for k, f in list(n['faults'].items()):
        if f['kind'] == 'corrupt':
            if plain:
                corrupt = True
            else:
                del n['faults'][k]
        elif perm and f['kind'] in ('error', 'early', 'reject') and rng.random() < 0.3:
            f['perm'] = True
    if corrupt and (not cfg['check_md5'] or cfg['kind'].startswith('swift')):
        # a damaged object exists for a moment: nobody may look
        del clients[1:]
        for op in clients[0]:
            op['cancel'] = None
        for f in n['faults'].values():
            f.pop('perm', None)
    return {'cfg': {'policy': rng.choice(('shuffle', 'shuffle', 'pct', 'lifo', 'fifo')),
                    'thread_delay': rng.choice(([0.0], [0.0, 0.004]))},
            'server': cfg, 'keys': keys, 'clients': clients, 'net': n, 'conns': rng.choice((1, 1, 2, 4)),
            'foreign': rng.sample(FOREIGN, rng.choice((0, 2, 5))),
            'many': rng.choice((0,) * 12 + (1100,)),
            # the date changes while requests are under way
            'midnight': rng.choice((0.5, 20.0, 70.0)) if rng.random() < 0.2 else None,
            'wrap': rng.choice((None,) * 6 + (['zlib', 'secret'], ['none', 'secret'], ['lzma', None],
                                              ['none', None]))}


def payload(ver, key, length):
    return stream('c08', ver, key, length).randbytes(length)


def meta_of(op):
    pat = ('x', '%\u20ac&= +', 'a%20b"\n')[op['ver'] % 3]
    return {'ver': op['ver'], 'len': op['len'], 'fill': (pat * op['meta'])[: op['meta']], 'b': b'\0\xff', 'f': 1.5,
            'n': None, 't': True, 'q': 'a "b\' %2, \u00e4:'}


def check_meta(sim, key, meta):
    try:
        ok = meta == meta_of({'ver': meta['ver'], 'len': meta['len'], 'meta': len(meta['fill'])})
    except (KeyError, TypeError):
        ok = False
    if not ok:
        comp.fail(sim, 'metadata', 'object %r has metadata %r' % (key, meta))


def execute(plan, holder):
    return comp.run(plan, holder, 'remote', body)


DELAYS = {'1': 1, '5': 5, '120': 120, 'date': 18}


async def read(sim, b, key, off=0, file=False):
    from s3ql.backends.common import NoSuchObject

    start = b'BEFORE!'[:off]
    if file == 2:
        try:
            data, meta = await b.fetch(key)
        except NoSuchObject:
            return None
        check_meta(sim, key, meta)
        if data != payload(meta['ver'], key, meta['len']):
            comp.fail(sim, 'mixed', 'fetching %r gives %d bytes with the metadata of version %d of %d bytes'
                      % (key, len(data), meta['ver'], meta['len']))
        return meta['ver']
    if file:
        fh = open('read-%d' % sim.rand_id(), 'w+b')
    else:
        fh = io.BytesIO()
    with fh:
        fh.write(start)
        try:
            meta = await b.readinto_fh(key, fh)
        except NoSuchObject:
            return None
        check_meta(sim, key, meta)
        pos = fh.tell()
        fh.seek(0)
        # (what a failed attempt to read an older version has left after the end does not count)
        data = fh.read(pos)
        if data[:off] != start:
            comp.fail(sim, 'read', 'reading %r changed what was before the offset' % key)
        data = data[off:]
        if data != payload(meta['ver'], key, meta['len']):
            comp.fail(sim, 'mixed', 'reading %r gives %d bytes with the metadata of version %d of %d bytes'
                      % (key, len(data), meta['ver'], meta['len']))
    return meta['ver']


async def listing(sim, h, b, prefix, keys, extra):
    recs = [(k, h.begin(k, 'read')) for k in keys if k.startswith(prefix)]
    got = []
    async for k in b.list(prefix):
        got.append(k)
    if len(set(got)) != len(got):
        comp.fail(sim, 'list', 'listing %r holds keys twice: %r' % (prefix, sorted(got)))
    extra = {k for k in extra if k.startswith(prefix)}
    for k in got:
        if (k not in keys or not k.startswith(prefix)) and k not in extra:
            comp.fail(sim, 'list', 'listing %r holds %r' % (prefix, k))
    miss = extra - set(got)
    if miss:
        comp.fail(sim, 'list', 'listing %r lacks %d keys (%r)' % (prefix, len(miss), min(miss)))
    for k, rec in recs:
        h.end(rec, PRESENT if k in got else None)


async def body(sim, plan, probe):
    import trio
    from s3ql.backends.common import NoSuchObject
    from .. import net as N
    from .. import servers as S

    keys = plan['keys']
    cfg = plan['server']
    h = Hist()
    perms = []  # (op, request) of permanent errors
    current = {}  # key -> operation being done by its owner
    lone = [None]
    ids = [0]

    def rand_id():
        ids[0] += 1
        return ids[0]

    sim.rand_id = rand_id
    bucket = S.Bucket()
    prefix = cfg['prefix']
    others = {}
    for k in plan['foreign']:
        if not k.startswith(prefix + 's3ql') and not (prefix and k.startswith(prefix)):
            others[k] = (b'foreign', [] if cfg['kind'] != 'gs' else {}, 0)
    if prefix == '':
        others = {k: v for k, v in others.items() if not k.startswith('s3ql_')}
    bucket.objs.update(others)
    extra = {k for k in others if k.startswith(prefix)}
    extra = {k[len(prefix) :] for k in extra}
    many = ['s3ql_many_%d' % i for i in range(plan['many'])]
    for k in many:
        bucket.objs[prefix + k] = others[prefix + k] = (b'', [] if cfg['kind'] != 'gs' else {}, 0)
    extra |= set(many)

    async with trio.open_nursery() as nursery:
        net = N.Net(sim, nursery, plan['net'], probe)
        b, srvs = await S.make(net, bucket, cfg, plan['conns'])

        raw = b
        if plan['wrap']:
            from s3ql.backends.comprenc import AsyncComprencBackend

            alg, pw = plan['wrap']
            b = await AsyncComprencBackend.create(pw and pw.encode(), compress_spec(alg), b)

        def on_error(req, f):
            if f.get('perm'):
                perms.append((f['kind'], req.method, req.target))
            if f['kind'] == 'corrupt':
                probe('corrupt-upload')
            if (f['kind'] in ('error', 'error-after') and not f.get('perm') and len(plan['clients']) == 1
                    and cfg['kind'] in ('s3', 's3c', 's3c4') and f.get('retry_after') in DELAYS
                    and wait.get('op') is not None):
                # (an error that comes while a connection is being lost may not be seen)
                wait['until'] = (wait['op'], sim.elapsed() + DELAYS[f['retry_after']])

        wait = {}  # what the server has asked for
        running = {}  # key -> records of the operation in `current`
        dels = {}  # key -> record of a deletion within a write

        def on_request(c, req, exc):
            if req is None:
                comp.fail(sim, 'protocol', 'the server got an invalid request: %s' % exc)
            if 'until' in wait:
                op, t = wait.pop('until')
                if op is wait.get('op'):
                    probe('retry-after')
                    if sim.elapsed() < t:
                        comp.fail(sim, 'retry-after', '%s %s comes %.1f s before the time the server has '
                                  'asked for' % (req.method, req.target, t - sim.elapsed()))
            if req.method in ('DELETE', 'PUT'):
                for k, op in list(current.items()):
                    if op['op'] == 'write' and req.target.endswith(quoted(prefix + k)):
                        if req.method == 'DELETE' and 'net-corrupt' in sim.faults_fired and k not in dels:
                            probe('delete-in-write')
                            dels[k] = h.begin(k, 'write', None)
                            recs = running[k]
                            if prefix + k in bucket.objs and not recs[0][1]:
                                # the upload may have taken effect and will do so again
                                h.end(recs[0], sure=False)
                                recs[0] = h.begin(k, 'write', op['ver'])
                        elif req.method == 'PUT' and k in dels:
                            h.end(dels.pop(k))

        for s in srvs:
            s.on_error = on_error
        net.on_request = on_request

        async def do(op):
            k = keys[op['key']]
            how = op['op']
            sim.ev('op', how, k)
            wait['op'] = op if how in ('write', 'read', 'lookup', 'size', 'contains', 'delete') else None
            n0 = len(perms)
            recs = []
            try:
                if how in ('write', 'delete'):
                    current[k] = op
                    running[k] = recs
                await inner(op, k, how, recs)
            except NoSuchObject:
                raise
            except Exception as exc:
                sim.ev('op-failed', how, k, repr(exc)[:200])
                if isinstance(exc, BUGS):
                    comp.fail(sim, 'exception', '%s of %r failed with %r' % (how, k, exc))
                if len(perms) == n0 and not (cfg['kind'].startswith('swift')
                                             and 'net-corrupt' in sim.faults_fired):
                    comp.fail(sim, 'exception', '%s of %r failed without a permanent error: %r' % (how, k, exc))
                for r in recs:
                    h.end(r, sure=False)
                probe('failed')
            else:
                if any(p[0] == 'error' for p in perms[n0:]) \
                        and 'net-idle-408' not in sim.faults_fired:
                    comp.fail(sim, 'swallowed', '%s of %r succeeds in spite of a permanent error: %r'
                              % (how, k, perms[n0:]))
            finally:
                wait['op'] = None
                if current.get(k) is op:
                    del current[k]
                    if k in dels:
                        h.end(dels.pop(k), sure=False)

        async def inner(op, k, how, recs):
            if how == 'write':
                rec = h.begin(k, 'write', op['ver'])
                recs.append(rec)
                data = payload(op['ver'], k, op['len'])
                junk = b'JUNK'[: op['ver'] % 5] if plan['wrap'] else b''
                data = junk + data + junk
                if op['file']:
                    fh = open('write-%d' % rand_id(), 'w+b')
                    fh.write(data)
                    fh.seek(op['ver'] % 3)  # irrelevant to this interface
                else:
                    fh = io.BytesIO(data)
                with fh:
                    if plan['wrap']:
                        fh.seek(len(junk))
                        n = await b.write_fh(k, fh, op['len'], metadata=meta_of(op),
                                             dont_compress=op['ver'] % 4 == 0)
                    else:
                        n = await b.write_fh(k, fh, metadata=meta_of(op))
                h.end(recs[0])
                if n != op['len'] and not plan['wrap']:
                    comp.fail(sim, 'size', 'writing %d bytes returns size %d' % (op['len'], n))
                probe('written')
            elif how == 'read':
                rec = h.begin(k, 'read')
                recs.append(rec)
                h.end(rec, await read(sim, b, k, op['off'], op['file']))
                probe('read')
            elif how == 'lookup':
                rec = h.begin(k, 'read')
                recs.append(rec)
                try:
                    meta = await b.lookup(k)
                except NoSuchObject:
                    h.end(rec, None)
                else:
                    check_meta(sim, k, meta)
                    h.end(rec, meta['ver'])
            elif how == 'contains':
                rec = h.begin(k, 'read')
                recs.append(rec)
                h.end(rec, PRESENT if await b.contains(k) else None)
            elif how == 'size':
                rec = h.begin(k, 'read')
                recs.append(rec)
                try:
                    n = await b.get_size(k)
                except NoSuchObject:
                    h.end(rec, None)
                else:
                    h.end(rec, PRESENT)
                    if not plan['wrap'] and all(n != r['len'] for ops in plan['clients'] for r in ops
                           if r['op'] == 'write' and r['key'] == op['key']):
                        comp.fail(sim, 'size', 'size %d of %r is of no version' % (n, k))
            elif how == 'delete':
                rec = h.begin(k, 'write', None)
                recs.append(rec)
                await b.delete(k)
                h.end(rec)
                probe('deleted')
            elif how == 'multi':
                ks = [keys[i] for i in op['keys']]
                recs += [h.begin(x, 'write', None) for x in ks]
                left = list(ks)
                await b.delete_multi(left)
                if left:
                    comp.fail(sim, 'delete', 'delete_multi left %r' % left)
                for r in recs:
                    h.end(r)
            else:
                await listing(sim, h, b, op['prefix'], keys, extra)
                probe('listed')

        async def client(ops):
            for op in ops:
                if op['think']:
                    await trio.sleep(op['think'])
                if op['cancel'] is not None:
                    with trio.move_on_after(op['cancel']) as sc:
                        await do(op)
                    if sc.cancelled_caught:
                        probe('cancelled')
                else:
                    await do(op)

        async with trio.open_nursery() as users:
            for ops in plan['clients']:
                users.start_soon(client, ops)
        if net.peak > plan['conns'] + (1 if cfg['kind'] == 'gs' or cfg['kind'].startswith('swift') else 0):
            probe('many-connections')
        # at rest and without faults
        net.healthy = True
        for k in keys:
            rec = h.begin(k, 'read')
            v = await read(sim, b, k)
            h.end(rec, v)
            if await b.contains(k) != (v is not None):
                comp.fail(sim, 'contains', 'contains(%r) disagrees with reading it' % k)
            if v is not None:
                meta = await b.lookup(k)
                check_meta(sim, k, meta)
                if meta['ver'] != v or (
                        not plan['wrap'] and await b.get_size(k) != meta['len']):
                    comp.fail(sim, 'lookup', 'lookup or size of %r disagrees with its content' % k)
        for p in ['', 's3ql_data_'] + keys:
            await listing(sim, h, b, p, keys, extra)
        for k, v in others.items():
            if bucket.objs.get(k) != v:
                comp.fail(sim, 'foreign', 'object %r of somebody else was changed' % k)
        for k in bucket.objs:
            if k not in others and k.removeprefix(prefix) not in keys:
                comp.fail(sim, 'foreign', 'object %r has appeared' % k)
        check_history_sim(sim, h)
        await raw.close()
        nursery.cancel_scope.cancel()


def quoted(key):
    import urllib.parse

    return urllib.parse.quote(key)


def compress_spec(alg):
    from s3ql.authinfo import CompressAlgorithm, CompressSpec

    return CompressSpec(CompressAlgorithm[alg.upper()], 6)
