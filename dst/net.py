'''Simulated network and HTTP servers below the real HTTP client (httpcore, h11, s3ql.http).

The seam is ``trio.open_tcp_stream``: everything above it is real code.  TLS is not simulated; a
connection on which TLS is started goes on in plain text.  A server is a task per connection; its
side of the protocol is spoken by a second h11 instance.  Faults are assigned to connections
('c<number>') and to requests ('<number>', in the order in which their headers arrive).
'''

import errno
import socket

import h11
import trio

from .core import stream as rng_stream


class Closed(Exception):
    '''The client has closed or the connection was cut'''


class Request:
    def __init__(self, num, ev):
        self.num = num
        self.method = ev.method.decode('latin1')
        self.target = ev.target.decode('latin1')
        self.headers = {}
        for k, v in ev.headers:
            self.headers.setdefault(k.decode('latin1').lower(), v.decode('latin1'))
        self.body = b''
        self.complete = False


class Response:
    obj = False  # the body is the content of a stored object

    def __init__(self, status, headers=(), body=b'', chunked=False, reason=None):
        self.status = status
        self.headers = list(headers)
        self.body = body
        self.chunked = chunked
        self.reason = reason


REASON = {200: 'OK', 201: 'Created', 202: 'Accepted', 204: 'No Content', 400: 'Bad Request',
          401: 'Unauthorized', 403: 'Forbidden', 404: 'Not Found', 408: 'Request Timeout',
          412: 'Precondition Failed', 429: 'Too Many Requests', 500: 'Internal Server Error',
          502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout'}


class Conn:
    '''One TCP connection; both directions'''

    def __init__(self, net, num, host, port):
        self.net = net
        self.num = num
        self.host = host
        self.port = port
        self.c2s = bytearray()
        self.s2c = bytearray()
        self.client_closed = False
        self.server_eof = False
        self.reset = False
        self.frozen = False  # nothing gets through any more, in either direction
        self.wake_c = trio.Event()
        self.wake_s = trio.Event()
        self.tls = False
        self.given = 0  # bytes read by the client
        self.sent = 0  # bytes the server has put on the wire
        self.busy = None  # request being answered
        self.log = []

    # server side ------------------------------------------------------------

    def _poke_c(self):
        self.wake_c.set()
        self.wake_c = trio.Event()

    def _poke_s(self):
        self.wake_s.set()
        self.wake_s = trio.Event()

    async def recv(self):
        while not self.c2s:
            if self.reset or self.client_closed:
                raise Closed
            await self.wake_s.wait()
        if self.reset:
            raise Closed
        data = bytes(self.c2s)
        self.c2s.clear()
        return data

    async def send(self, data):
        '''Put *data* on the wire, in pieces'''
        net = self.net
        pos = 0
        count = 0
        while pos < len(data):
            await net.lag()
            if self.reset or self.client_closed:
                raise Closed
            count += 1
            n = net.piece(len(data) - pos) if count < 60 else len(data) - pos
            if not self.frozen:
                self.s2c += data[pos : pos + n]
                self.sent += n
                self._poke_c()
            pos += n

    def close(self, how='eof'):
        '''The server closes: 'eof' (FIN) or 'reset' '''
        if how == 'reset':
            self.reset = True
            if self.net.rng.random() < 0.5:
                self.s2c.clear()
        self.server_eof = True
        self._poke_c()
        self._poke_s()


class Stream(trio.abc.Stream):
    '''Client side of a connection'''

    def __init__(self, conn):
        self.conn = conn

    def _check(self):
        if self.conn.client_closed:
            raise trio.ClosedResourceError('this stream was closed')

    async def send_all(self, data):
        c = self.conn
        net = c.net
        data = bytes(data)
        await trio.lowlevel.checkpoint()
        self._check()
        pos = 0
        count = 0
        while pos < len(data):
            # (the client allows only some seconds for each call)
            count += 1
            if count < 8:
                await net.lag(client=True)
            self._check()
            if c.reset:
                raise trio.BrokenResourceError('connection reset') from OSError(errno.EPIPE, 'x')
            if c.server_eof:
                # the peer is gone: the first segments are answered by a reset
                if net.rng.random() < 0.5:
                    c.reset = True
                    if net.rng.random() < 0.5:
                        c.s2c.clear()
                    c._poke_c()
                pos = len(data)
                break
            n = net.piece(len(data) - pos) if count < 60 else len(data) - pos
            if not c.frozen:
                c.c2s += data[pos : pos + n]
                c._poke_s()
            pos += n

    async def wait_send_all_might_not_block(self):
        await trio.lowlevel.checkpoint()

    async def receive_some(self, max_bytes=None):
        c = self.conn
        await trio.lowlevel.checkpoint()
        while True:
            self._check()
            if c.s2c and not c.frozen:
                n = c.net.piece(min(len(c.s2c), max_bytes or 65536))
                out = bytes(c.s2c[:n])
                del c.s2c[:n]
                c.given += n
                return out
            if c.reset:
                raise trio.BrokenResourceError('connection reset') from OSError(errno.ECONNRESET, 'x')
            if c.server_eof and not c.frozen:
                return b''
            await c.wake_c.wait()

    async def aclose(self):
        c = self.conn
        if not c.client_closed:
            c.client_closed = True
            c.net.open.discard(c)
            c._poke_s()
            c._poke_c()
        await trio.lowlevel.checkpoint()


class Net:
    '''plan: {'lat': [...], 'pieces': [...], 'faults': {...}, 'dns_down': bool}'''

    def __init__(self, sim, nursery, plan, probe):
        self.sim = sim
        self.nursery = nursery
        self.plan = plan
        self.probe = probe
        self.rng = rng_stream(sim.seed, 'net')
        self.lat = plan.get('lat') or [0.0]
        self.pieces = plan.get('pieces') or [0]
        self.faults = plan.get('faults') or {}
        self.n_conn = 0
        self.n_req = 0
        self.open = set()
        self.conns = []
        self.servers = {}
        self.healthy = False
        self.on_request = None
        self.peak = 0
        self.install()

    def install(self):
        import httpcore._backends.trio as hb

        net = self

        async def start_tls(self, ssl_context, server_hostname=None, timeout=None):
            s = self._stream
            s.conn.tls = True
            f = net.fault('t%d' % s.conn.num)
            if f is not None:
                await self.aclose()
                if f['kind'] == 'timeout':
                    await trio.sleep(timeout)
                    raise hb.ConnectTimeout('TLS handshake timed out')
                raise hb.ConnectError('TLS handshake failed') from trio.BrokenResourceError()
            await net.lag(client=True)
            return self

        hb.TrioStream.start_tls = start_tls
        trio.open_tcp_stream = self.open_tcp_stream
        socket.getaddrinfo = self.getaddrinfo

    def fault(self, name):
        if self.healthy:
            return None
        f = self.faults.get(name)
        if f is not None:
            self.sim.fired('net-' + f['kind'])
            self.sim.ev('fault', name, f['kind'])
        return f

    async def lag(self, client=False):
        d = self.rng.choice(self.lat)
        if d:
            await trio.sleep(d)
        else:
            await trio.lowlevel.checkpoint()

    def piece(self, n):
        p = self.rng.choice(self.pieces)
        return n if not p else max(1, min(n, p))

    def getaddrinfo(self, host, *a, **kw):
        if self.plan.get('dns_down') and not self.healthy:
            raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
        return [(2, 1, 6, '', ('192.0.2.1', 80))]

    async def open_tcp_stream(self, host, port, **kw):
        self.n_conn += 1
        num = self.n_conn
        self.sim.ev('connect', host, port)
        f = self.fault('c%d' % num)
        await self.lag(client=True)
        if f is not None:
            if f['kind'] == 'refuse':
                raise OSError('all attempts to connect to %s:%d failed' % (host, port)) \
                    from ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
            if f['kind'] == 'hang':
                await trio.sleep_forever()
            if f['kind'] == 'dns':
                raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
            if f['kind'] == 'noroute':
                raise OSError(errno.EHOSTUNREACH, 'No route to host')
        server = self.servers.get((host, port))
        if server is None:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        c = Conn(self, num, host, port)
        self.conns.append(c)
        self.open.add(c)
        self.peak = max(self.peak, len(self.open))
        self.nursery.start_soon(self.serve, c, server)
        return Stream(c)

    # ---------------------------------------------------------------- the server's side

    async def serve(self, c, server):
        try:
            await self._serve(c, server)
        except Closed:
            c.busy = None
        except h11.RemoteProtocolError as exc:
            c.busy = None
            if self.on_request is not None:
                self.on_request(c, None, exc)
            c.close('reset')

    async def _serve(self, c, server):
        h = h11.Connection(our_role=h11.SERVER)
        while True:
            # headers
            req = None
            while req is None:
                ev = h.next_event()
                if ev is h11.NEED_DATA:
                    h.receive_data(await c.recv())
                    continue
                if isinstance(ev, h11.Request):
                    self.n_req += 1
                    req = Request(self.n_req, ev)
                elif isinstance(ev, h11.ConnectionClosed):
                    raise Closed
                else:
                    raise AssertionError('server got %r' % (ev,))
            c.busy = req
            self.sim.ev('request', c.num, req.method, req.target)
            if self.on_request is not None:
                self.on_request(c, req, None)
            f = self.fault(str(req.num)) or {'kind': None}
            kind = f['kind']
            if kind == 'reset-headers':
                c.close(f.get('how', 'reset'))
                raise Closed
            if h.they_are_waiting_for_100_continue:
                await self.lag()
                if kind == 'reject':
                    resp = server.error(req, f)
                    close = f.get('close')
                    await self.respond(c, h, req, resp, {'kind': 'close' if close else None},
                                       rejected=True)
                    if close:
                        c.close(f.get('how', 'eof'))
                        raise Closed
                    # the client gives up the body, the exchange is over
                    c.busy = None
                    h = h11.Connection(our_role=h11.SERVER)
                    continue
                for _ in range(f.get('n', 2) if kind == 'info' else 1):
                    await c.send(h.send(h11.InformationalResponse(status_code=100, headers=[],
                                                                  reason=b'Continue')))
            # body
            early = None
            while True:
                ev = h.next_event()
                if ev is h11.NEED_DATA:
                    if kind == 'reset-body' and len(req.body) >= f.get('at', 0):
                        c.close(f.get('how', 'reset'))
                        raise Closed
                    if kind == 'early' and len(req.body) >= f.get('at', 0):
                        early = server.error(req, f)
                        break
                    if kind == 'stall-body' and len(req.body) >= f.get('at', 0):
                        c.frozen = True
                    h.receive_data(await c.recv())
                elif isinstance(ev, h11.Data):
                    req.body += bytes(ev.data)
                elif isinstance(ev, h11.EndOfMessage):
                    req.complete = True
                    break
                elif isinstance(ev, h11.ConnectionClosed):
                    raise Closed
            if early is not None:
                # answer before the body has been read, and close
                await self.respond(c, h, req, early, {'kind': 'close'}, rejected=True)
                c.close(f.get('how', 'reset'))
                raise Closed
            await self.lag()
            if kind in ('early', 'reject', 'error'):
                resp = server.error(req, f)
            elif kind in ('reset-before', 'reset-body'):
                c.close(f.get('how', 'reset'))
                raise Closed
            elif kind == 'stall-before':
                c.frozen = True
                resp = None
            else:
                if c.reset or c.client_closed:
                    raise Closed  # a request that has been given up has no effect any more
                resp = await server.handle(c, req)
            if kind == 'lost':
                c.close(f.get('how', 'reset'))
                raise Closed
            if kind == 'stall':
                c.frozen = True
            if resp is None or c.frozen:
                while True:
                    await c.recv()
            if kind == 'error-after':
                resp = server.error(req, f)
            if kind == 'slow':
                await trio.sleep(f.get('secs', 10.0))
            await self.respond(c, h, req, resp, f)
            c.busy = None
            if h.our_state is h11.MUST_CLOSE or kind == 'close':
                c.close('eof')
                raise Closed
            if kind == 'idle-close':
                self.nursery.start_soon(self.later, f.get('secs', 0.0), c.close,
                                        f.get('how', 'eof'))
            if kind == 'idle-408':
                self.nursery.start_soon(self.bye, c, f.get('secs', 0.0))
            if h.our_state is h11.DONE and h.their_state is h11.DONE:
                h.start_next_cycle()
            else:
                c.close('eof')
                raise Closed

    async def later(self, secs, fn, *a):
        await trio.sleep(secs)
        fn(*a)

    async def bye(self, c, secs):
        '''The server drops an idle connection, saying so (as proxies do)'''
        await trio.sleep(secs)
        if c.busy is None and not c.c2s and not c.client_closed and not c.reset:
            msg = (b'HTTP/1.1 408 Request Time-out\r\nContent-Length: 0\r\n'
                   b'Connection: close\r\n\r\n')
            c.s2c += msg
            c.sent += len(msg)
            c.close('eof')

    async def respond(self, c, h, req, resp, f, rejected=False):
        kind = f['kind']
        body = resp.body
        headers = list(resp.headers)
        nobody = req.method == 'HEAD' or resp.status in (204, 304)
        if kind == 'info' and f.get('code', 100) != 100:
            await c.send(h.send(h11.InformationalResponse(
                status_code=f['code'], headers=[('X-Note', 'working')], reason=b'Processing')))
        elif kind == 'info':
            await c.send(b'HTTP/1.1 100 Continue\r\n\r\n')
        if nobody and resp.status != 204:
            headers.append(('Content-Length', str(resp.length if hasattr(resp, 'length')
                                                  else len(body))))
        elif nobody:
            pass
        elif resp.chunked:
            headers.append(('Transfer-Encoding', 'chunked'))
        else:
            headers.append(('Content-Length', str(len(body))))
        if kind == 'corrupt' and f.get('header') and resp.obj and not self.healthy:
            # a flipped bit in the metadata or checksum
            at = [i for i, (k, v) in enumerate(headers)
                  if v and (k == 'ETag' or k.rpartition('-')[2].isdigit() or k.endswith('-md5'))]
            if at:
                i = at[int(len(at) * f['at']) % len(at)]
                k, v = headers[i]
                j = int(len(v) * f['pos']) % len(v)
                headers[i] = (k, v[:j] + chr(ord(v[j]) ^ f['bit']) + v[j + 1 :])
        if kind == 'close':
            headers.append(('Connection', 'close'))
        out = h.send(h11.Response(
            status_code=resp.status, headers=headers,
            reason=(resp.reason or REASON.get(resp.status, 'Whatever')).encode('latin1')))
        if not nobody:
            if kind == 'corrupt' and body and resp.obj and not f.get('header') and not self.healthy:
                i = int(len(body) * f.get('at', 0.5)) % len(body)
                body = body[:i] + bytes([body[i] ^ 0x20]) + body[i + 1 :]
            if resp.chunked:
                pos = 0
                while pos < len(body):
                    n = self.rng.choice((1, 10, 1000, len(body)))
                    out += h.send(h11.Data(data=body[pos : pos + n]))
                    pos += n
            elif body:
                out += h.send(h11.Data(data=body))
        out += h.send(h11.EndOfMessage())
        if kind == 'garbage':
            out = b'\x15\x03\x01 this is not HTTP\r\n\r\n'
        if kind in ('cut', 'cut-stall'):
            n = int(len(out) * f.get('at', 0.5))
            out = out[: min(n, len(out) - 1)]
            await c.send(out)
            if kind == 'cut-stall':
                c_frozen = True
                while c_frozen:
                    await c.recv()
            c.close(f.get('how', 'eof'))
            raise Closed
        if kind == 'extra':
            out += f.get('data', '\r\n').encode('latin1')
        if kind == 'trickle':
            for i in range(0, len(out), max(1, len(out) // f.get('n', 10))):
                await trio.sleep(f.get('secs', 5.0))
                await c.send(out[i : i + max(1, len(out) // f.get('n', 10))])
        else:
            await c.send(out)


def gen_net(rng, nreq, rate=None, kinds=None, conn_rate=0.05):
    '''A network with faults on some of the first *nreq* requests'''
    lat = rng.choice(([0.0], [0.0, 0.01], [0.0, 0.001, 0.05], [0.0, 0.02, 0.3]))
    pieces = rng.choice(([0], [0], [0, 1000], [1, 7, 100, 1000], [0, 3, 5000], [16384]))
    faults = {}
    if rate is None:
        rate = rng.choice((0.0, 0.05, 0.2, 0.5))
    for i in range(1, nreq + 1):
        if rng.random() < rate:
            faults[str(i)] = one_fault(rng, kinds)
        if rng.random() < conn_rate * (rate > 0):
            faults['c%d' % i] = {'kind': rng.choice(('refuse', 'hang', 'dns', 'noroute'))}
        if rng.random() < conn_rate * 0.3 * (rate > 0):
            faults['t%d' % i] = {'kind': rng.choice(('timeout', 'broken'))}
    return {'lat': lat, 'pieces': pieces, 'faults': faults, 'dns_down': rng.random() < 0.7}


KINDS = [('reset-headers', 2), ('reset-before', 2), ('reset-body', 3), ('lost', 4), ('cut', 6),
         ('cut-stall', 1), ('stall', 1), ('stall-before', 1), ('stall-body', 0.7), ('error', 5),
         ('error-after', 2), ('reject', 3), ('early', 3), ('close', 3), ('idle-close', 3),
         ('idle-408', 1), ('slow', 1), ('trickle', 0.7), ('info', 2), ('corrupt', 1.5)]


def one_fault(rng, kinds=None):
    from .gen import wchoice

    kind = wchoice(rng, [k for k in KINDS if kinds is None or k[0] in kinds])
    f = {'kind': kind}
    if kind in ('cut', 'cut-stall', 'corrupt'):
        f['at'] = rng.choice((0.0, 0.1, 0.3, 0.5, 0.9, 0.999, 1.0, rng.random()))
    if kind == 'corrupt' and rng.random() < 0.4:
        f.update(header=True, pos=rng.random(), bit=rng.choice((1, 1, 2, 4)))
    if kind in ('reset-body', 'early', 'stall-body'):
        f['at'] = rng.choice((0, 0, 1, 100, 5000, 100000))
    if kind in ('reset-headers', 'reset-before', 'reset-body', 'lost', 'cut', 'early', 'idle-close',
                'reject'):
        f['how'] = rng.choice(('eof', 'reset'))
    if kind == 'reject':
        f['close'] = rng.random() < 0.3
    if kind in ('error', 'error-after', 'reject', 'early'):
        f['err'] = rng.randrange(1000)
        if rng.random() < 0.3:
            f['retry_after'] = rng.choice(('0', '1', '5', '120', '100000', 'date', 'past', 'junk'))
    if kind in ('slow', 'trickle'):
        f['secs'] = rng.choice((1.0, 9.0, 15.0))
    if kind in ('idle-close', 'idle-408'):
        f['secs'] = rng.choice((0.0, 0.0, 0.01, 0.5))
    if kind == 'info':
        f['code'] = rng.choice((100, 100, 102, 103))
    return f
