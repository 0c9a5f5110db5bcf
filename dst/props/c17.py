'''C17: pooled HTTP connections are bounded, reused safely and never mix up answers.'''

import io

from .. import comp, gen as G
from ..core import stream

PROP = 'C17'
RUNS = {'quick': 3500, 'thorough': 60000}
RULE = ('One run: up to 10 tasks send requests through one connection pool of the real HTTP client (h11 '
        'and httpcore included) to a simulated server and use the answers in all ways: read completely, '
        'in part, into a file, not at all, leave with an exception, get cancelled. Connections are '
        'refused, cut, reset, stalled or closed while idle at any byte; the server rejects bodies, '
        'answers early, sends interim answers, splits the data arbitrarily. Every request and answer '
        'carries a token: data given to a request must be the prefix of its own answer, the server must '
        'receive whole bodies, a connection gets a new request only after the previous exchange was '
        'read completely, and never more than the configured number is open. In the end, without '
        'faults, all connections must be usable at once, and closing the pool must close them.')
NOTE = ('Real s3ql.http, h11 and httpcore; TCP and TLS are simulated (no encryption). An answer that '
        'tells of an idle connection being dropped (408) may be taken as the answer to the next '
        'request, which no client can tell apart.')

LENS = [0, 0, 1, 10, 1000, 20_000, 300_000]


def gen(rng, idx, tier):
    from .. import net

    clients = []
    tok = 0
    for _ in range(rng.choice((1, 2, 3, 5, 10))):
        ops = []
        for _ in range(rng.choice((1, 2, 4, 8))):
            tok += 1
            op = {'tok': tok, 'method': rng.choice(('GET', 'GET', 'GET', 'PUT', 'PUT', 'POST', 'HEAD', 'DELETE')),
                  'len': rng.choice(LENS), 'st': rng.choice((200, 200, 200, 404, 500, 204, 206)),
                  'chunked': rng.random() < 0.25, 'think': rng.choice((0, 0, 0, 0.05, 1.0)),
                  'use': G.wchoice(rng, [('all', 6), ('fh', 2), ('bio', 2), ('discard', 1), ('part', 2),
                                         ('none', 1), ('raise', 1), ('part-raise', 1)]),
                  'hold': rng.choice((0, 0, 0.02)),
                  'again': rng.random() < 0.2}
            if op['method'] in ('PUT', 'POST'):
                op['send'] = [[rng.choice(('b', 'f', 'f', 'bio')), rng.choice(LENS)]
                              for _ in range(rng.choice((1, 1, 1, 3)))]
                op['expect'] = rng.choice((None, None, True, False))
            if rng.random() < 0.25:
                op['cancel'] = rng.choice((0.0, 0.001, 0.01, 0.02, 0.05, 0.1, 0.3, 5.0))
            ops.append(op)
        clients.append(ops)
    kinds = None
    n = net.gen_net(rng, tok + 10)
    n['faults'] = {k: f for k, f in n['faults'].items() if f['kind'] != 'corrupt'}
    plan = {'cfg': {'policy': rng.choice(('shuffle', 'shuffle', 'pct', 'lifo', 'fifo')),
                    'thread_delay': rng.choice(([0.0], [0.0, 0.004]))},
            'clients': clients, 'net': n, 'max': rng.choice((1, 1, 2, 3, 5)),
            'timeout': rng.choice((None, 20, 5)), 'tls': rng.random() < 0.4,
            'close_at': rng.choice((None, None, None, None, 0.02, 0.3))}
    return plan


def payload(kind, tok, length):
    return stream('c17', kind, tok, length).randbytes(length)


def execute(plan, holder):
    return comp.run(plan, holder, 'pool', body)


class Server:
    '''Answers depend on the token of the request only'''

    def __init__(self, sim, probe):
        self.sim = sim
        self.probe = probe
        self.ops = {}  # token -> op
        self.seen = {}  # token -> (conn, request)
        self.barrier = None
        self.done = set()  # tokens whose answer has been read completely
        self.last = {}  # conn number -> token
        self.bad = set()  # connections with faults

    def tok(self, req):
        return int(req.target.rsplit('/', 1)[1])

    def on_request(self, c, req, exc):
        if req is None:
            comp.fail(self.sim, 'protocol', 'the server got an invalid request: %s' % exc)
        tok = self.tok(req)
        if tok in self.seen:
            comp.fail(self.sim, 'request-twice', 'request %d was sent twice' % tok)
        prev = self.last.get(c.num)
        if prev is not None:
            self.probe('reused')
            if prev not in self.done:
                comp.fail(self.sim, 'unsafe-reuse', 'request %d was sent on a connection whose exchange '
                          '%d was not read completely' % (tok, prev))
        self.last[c.num] = tok
        self.seen[tok] = (c, req)

    def check_body(self, tok, req):
        op = self.ops.get(tok)
        if op is not None and op.get('send'):
            want = b''.join(payload('s%d' % i, tok, n) for i, (_, n) in enumerate(op['send']))
            if req.body != want:
                comp.fail(self.sim, 'request-body', 'request %d arrived with %d bytes instead of %d'
                          % (tok, len(req.body), len(want)))

    async def handle(self, c, req):
        from ..net import Response

        tok = self.tok(req)
        self.check_body(tok, req)
        if self.barrier is not None:
            await self.barrier(tok)
        op = self.ops[tok]
        r = Response(op['st'], [('X-Token', str(tok))], answer(op), op['chunked'])
        return r

    def error(self, req, f):
        from ..net import Response

        tok = self.tok(req)
        headers = [('X-Token', str(tok))]
        if f.get('retry_after'):
            headers.append(('Retry-After', f['retry_after']))
        st = (500, 503, 502, 429, 408, 400, 404, 412)[f['err'] % 8]
        return Response(st, headers, payload('err', tok, LENS[f['err'] % len(LENS)]),
                        f['err'] % 3 == 0)


def answer(op):
    if op['st'] == 204:
        return b''
    return payload('a', op['tok'], op['len'])


async def body(sim, plan, probe):
    import os
    import ssl

    import h11
    import httpcore
    import trio
    from s3ql import http as H
    from .. import net as N

    allowed = (H.ConnectionClosed, H.ConnectionTimedOut, H.InvalidResponse, H.DNSUnavailable,
               H.HostnameNotResolvable, httpcore.ConnectError, httpcore.ConnectTimeout)

    class Left(Exception):
        pass

    ctx = ssl.create_default_context() if plan['tls'] else None
    pool = H.Pool('srv', None, ssl_context=ctx, max_connections=plan['max'], timeout=plan['timeout'])
    srv = Server(sim, probe)
    state = {'busy': 0, 'closed': False}

    async def exchange(conn, op, files):
        tok = op['tok']
        srv.ops[tok] = op
        kw = {}
        if op.get('send'):
            items = []
            for i, (k, n) in enumerate(op['send']):
                data = payload('s%d' % i, tok, n)
                if k == 'b':
                    items.append(data)
                elif k == 'bio':
                    b = io.BytesIO(data)
                    b.seek(min(n, 3))
                    items.append(b)
                else:
                    name = 'up%d-%d' % (tok, i)
                    with open(name, 'wb') as fh:
                        fh.write(data)
                    fh = open(name, 'rb')
                    files.append(fh)
                    items.append(fh)
            kw = {'body': items, 'expect100': op['expect']}
        resp = await conn.send_request(op['method'], '/x/%d' % tok, headers={'X-A': 'b'}, **kw)
        mine = srv.seen.get(tok)
        f = srv_fault(plan, mine)
        got = resp.headers.get('X-Token')
        if got is None and resp.status == 408 and 'net-idle-408' in sim.faults_fired:
            probe('idle-408')
            return
        if got != str(tok):
            comp.fail(sim, 'mixed', 'the answer to request %d is %d with token %s' % (tok, resp.status, got))
        errs = [srv.error(mine[1], f)] if f.get('err') is not None else []
        if resp.status == op['st'] and not (errs and errs[0].status == resp.status):
            want = answer(op)
            chunked = op['chunked']
        elif errs and resp.status == errs[0].status:
            want = errs[0].body
            chunked = errs[0].chunked
            probe('error-answer')
        else:
            comp.fail(sim, 'status', 'request %d is answered by %d' % (tok, resp.status))
        if errs and errs[0].status == op['st'] and errs[0].status == resp.status:
            want = None  # either
            chunked = True
        if op['method'] == 'HEAD':
            want = b''
            chunked = False
        if want == b'' and not chunked or resp.status == 204 or resp.headers.get('Content-Length') == '0':
            srv.done.add(tok)
        if op['hold']:
            await trio.sleep(op['hold'])
        use = op['use']
        data = b''
        whole = False

        def check(data, whole):
            wants = [want] if want is not None else [answer(op), errs[0].body]
            for w in wants:
                if data == w or (not whole and w.startswith(data)):
                    return
            comp.fail(sim, 'mixed', 'request %d (%s) was given %d bytes that are not %s of its answer '
                      'of %d' % (tok, use, len(data), 'all' if whole else 'the beginning', len(wants[0])))

        if use == 'all':
            data = await conn.readall()
            whole = True
        elif use == 'discard':
            await conn.discard()
            srv.done.add(tok)
        elif use == 'bio':
            out = io.BytesIO()
            try:
                await conn.readinto_fh(out)
            finally:
                check(out.getvalue(), False)
            data = out.getvalue()
            whole = True
        elif use == 'fh':
            with open('down%d' % tok, 'w+b', buffering=0) as out:
                upd = []
                try:
                    await conn.readinto_fh(out, update=lambda b: upd.append(bytes(b)))
                finally:
                    check(b''.join(upd), False)
                out.seek(0)
                data = out.read()
                if data != b''.join(upd):
                    comp.fail(sim, 'update', 'update() was given other data than the file')
            os.unlink('down%d' % tok)
            whole = True
        elif use in ('part', 'part-raise'):
            data = await conn.read()
            if data == b'':
                srv.done.add(tok)
                if resp.status != 204:
                    whole = True
        check(bytes(data), whole)
        if whole:
            srv.done.add(tok)
            probe('complete')
        if use in ('raise', 'part-raise'):
            raise Left

    async def one(op):
        files = []
        held = False
        tok = op['tok']
        try:
            async with pool.get() as conn:
                state['busy'] += 1
                held = True
                if state['busy'] > plan['max']:
                    comp.fail(sim, 'too-many', '%d connections in use' % state['busy'])
                try:
                    await exchange(conn, op, files)
                    if op['again'] and tok in srv.done and conn.is_idle:
                        op = dict(op, tok=tok + 10000, use='all')
                        tok = op['tok']
                        await exchange(conn, op, files)
                        probe('second')
                finally:
                    state['busy'] -= 1
        except Left:
            probe('left-with-exception')
        except H.StateError as exc:
            if not (state['closed'] and not held):
                comp.fail(sim, 'exception', 'request %d: StateError %s' % (tok, exc))
        except allowed as exc:
            probe('failed')
            excuse(op, exc)
        except (h11.RemoteProtocolError, h11.LocalProtocolError) as exc:
            comp.fail(sim, 'exception', 'request %d: %r' % (tok, exc))
        finally:
            for fh in files:
                fh.close()

    def excuse(op, exc):
        '''Was there a reason for the failure?'''
        tok = op['tok']
        mine = srv.seen.get(tok)
        if mine is None:
            if any(k.startswith('net-') for k in sim.faults_fired):
                return
        else:
            c, req = mine
            if plan['net']['faults'].get(str(req.num)) or c.reset or c.server_eof \
                    or plan['net']['faults'].get('c%d' % c.num) or plan['net']['faults'].get('t%d' % c.num):
                return
        comp.fail(sim, 'exception', 'request %d failed without a reason: %r' % (tok, exc))

    async def client(ops):
        for op in ops:
            if op['think']:
                await trio.sleep(op['think'])
            if op.get('cancel') is not None:
                with trio.move_on_after(op['cancel']) as sc:
                    await one(op)
                if sc.cancelled_caught:
                    probe('cancelled')
            else:
                await one(op)

    async with trio.open_nursery() as nursery:
        net = N.Net(sim, nursery, plan['net'], probe)
        net.on_request = srv.on_request
        net.servers['srv', 443 if plan['tls'] else 80] = srv

        async def closer():
            await trio.sleep(plan['close_at'])
            state['closed'] = True
            await pool.aclose()
            probe('closed-in-use')

        async with trio.open_nursery() as users:
            for ops in plan['clients']:
                users.start_soon(client, ops)
            if plan['close_at'] is not None:
                users.start_soon(closer)
        if net.peak > plan['max']:
            comp.fail(sim, 'too-many', '%d connections were open, %d are allowed' % (net.peak, plan['max']))
        net.healthy = True
        if not state['closed']:
            # everything must be usable now
            await trio.sleep(100)
            waiting = trio.Event()
            arrived = [0]

            async def barrier(tok):
                if tok < 100000:
                    return
                arrived[0] += 1
                if arrived[0] == plan['max']:
                    waiting.set()
                await waiting.wait()

            srv.barrier = barrier

            async def last(i):
                # a connection that was closed while idle may need a second attempt
                for n in range(20):
                    op = {'tok': 100000 + i * 100 + n, 'method': 'GET', 'len': 1000, 'st': 200,
                          'chunked': False, 'hold': 0, 'use': 'all', 'again': False}
                    try:
                        async with pool.get() as conn:
                            await exchange(conn, op, [])
                    except allowed as exc:
                        excuse(op, exc)
                    if op['tok'] in srv.done:
                        return
                comp.fail(sim, 'not-usable', 'requests still fail after the faults have ended')

            with trio.move_on_after(1000) as sc:
                async with trio.open_nursery() as n2:
                    for i in range(plan['max']):
                        n2.start_soon(last, i)
            if sc.cancelled_caught:
                comp.fail(sim, 'not-usable', 'only %d of %d connections can be used' % (arrived[0], plan['max']))
            if net.peak > plan['max']:
                comp.fail(sim, 'too-many', '%d connections were open, %d are allowed' % (net.peak, plan['max']))
            await pool.aclose()
        await trio.sleep(1)
        if net.open:
            comp.fail(sim, 'leak', '%d connections are still open after the pool was closed' % len(net.open))
        try:
            async with pool.get() as conn:
                comp.fail(sim, 'closed', 'a closed pool gives out connections')
        except H.StateError:
            pass
        nursery.cancel_scope.cancel()


def srv_fault(plan, mine):
    if mine is None:
        return {}
    return plan['net']['faults'].get(str(mine[1].num)) or {}
