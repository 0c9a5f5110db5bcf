'''Simulated storage services that speak HTTP (used with dst.net)'''

import base64
import hashlib
import hmac
import json
import re
import urllib.parse
from email.utils import formatdate
from xml.sax.saxutils import escape

from .net import Response

NS = 'http://s3.amazonaws.com/doc/2006-03-01/'


class Bucket:
    def __init__(self):
        self.objs = {}  # name -> (data, headers, generation)
        self.gen = 0

    def put(self, name, data, headers):
        self.gen += 1
        self.objs[name] = (data, headers, self.gen)


class Base:
    '''cfg: page (keys per listing page), absent404, chunked, ...'''

    def __init__(self, net, bucket, cfg):
        self.net = net
        self.b = bucket
        self.cfg = cfg
        self.sim = net.sim
        self.perm_keys = set()
        self.applied = {}
        self.multi = {}  # number of bulk delete -> {'<index>': code}
        self.n_multi = 0
        self.n_list = 0
        self.on_error = None
        self.on_apply = None

    def extra(self, f):
        ra = f.get('retry_after')
        if ra is None:
            return []
        if ra == 'date':
            ra = formatdate(self.sim.peek_time() + 20, usegmt=True)
        elif ra == 'past':
            ra = formatdate(self.sim.peek_time() - 9999, usegmt=True)
        elif ra == 'junk':
            ra = 'soon'
        return [('Retry-After', ra)]

    def error(self, req, f):
        if self.on_error is not None:
            self.on_error(req, f)
        table = self.PERM if f.get('perm') else self.TEMP
        spec = table[f['err'] % len(table)]
        if req.method == 'HEAD' and spec[0] < 500 and spec[0] not in (408, 429, 401):
            # (there is no body that says more)
            spec = (403, None) if f.get('perm') else table[0]
        r = self.make_error(req, *spec)
        r.headers += self.extra(f)
        return r

    def html(self, status):
        return Response(status, [('Content-Type', 'text/html'), ('Server', 'proxy')],
                        b'<html><body><h1>%d</h1> try again </body></html>' % status)

    def unauth(self, what):
        self.net.sim.abort(_viol('signature', what))


def _viol(cls, msg):
    from .core import Violation

    return Violation(cls, msg)


class S3(Base):
    TEMP = [(500, 'InternalError'), (503, 'SlowDown'), (503, 'ServiceUnavailable'),
            (400, 'RequestTimeout'), (409, 'OperationAborted'), (502, None), (504, None), (408, None),
            (429, None), (500, ''), (400, 'IncompleteBody'), (503, 'TemporarilyUnavailable'),
            (500, 'Timeout'), (503, None)]
    PERM = [(403, 'AccessDenied'), (403, None), (400, 'InvalidArgument'), (403, 'InvalidAccessKeyId'),
            (501, None), (404, 'NoSuchBucket')]

    def __init__(self, net, bucket, cfg, name, host, port, login, password, sig, region=None):
        super().__init__(net, bucket, cfg)
        self.name = name
        self.host = host
        self.port = port
        self.login = login
        self.password = password
        self.sig = sig
        self.region = region

    def make_error(self, req, status, code):
        if code is None:
            return self.html(status)
        if code == '':
            return Response(status, [])
        return self.xml(status, '<Error><Code>%s</Code><Message>what?</Message>'
                        '<Resource>%s</Resource><RequestId>1</RequestId></Error>'
                        % (code, escape(req.target)))

    def xml(self, status, text):
        r = Response(status, [('Content-Type', self.cfg.get('ctype', 'application/xml'))],
                     b'<?xml version="1.0" encoding="UTF-8"?>\n' + text.encode('utf-8'),
                     self.cfg.get('chunked', False))
        return r

    def check_host(self, req):
        default = 443 if self.port == 443 else 80
        want = self.host if self.port == default else '%s:%d' % (self.host, self.port)
        if req.headers.get('host') != want:
            self.unauth('Host header is %r' % req.headers.get('host'))
        return want

    def check_v2(self, req, path, query):
        h = req.headers
        names = sorted(k for k in h if k.startswith('x-amz-'))
        s = '\n'.join([req.method, h.get('content-md5', ''), h.get('content-type', ''), h.get('date', '')]
                      + ['%s:%s' % (k, h[k]) for k in names]) + '\n' + path
        if 'delete' in query:
            s += '?delete'
        sig = base64.b64encode(hmac.new(self.password.encode(), s.encode(), hashlib.sha1).digest()).decode()
        if h.get('authorization') != 'AWS %s:%s' % (self.login, sig):
            self.unauth('%s %s is not signed correctly' % (req.method, req.target))

    def check_v4(self, req, path, rawq):
        h = req.headers
        m = re.fullmatch(r'AWS4-HMAC-SHA256 Credential=([^,]+),SignedHeaders=([^,]+),Signature=([0-9a-f]+)',
                         h.get('authorization', ''))
        if not m:
            self.unauth('no signature')
        cred, names, sig = m.groups()
        names = names.split(';')
        date = h['x-amz-date']
        q = []
        for el in rawq.split('&') if rawq else ():
            k, _, v = el.partition('=')
            q.append('%s=%s' % (urllib.parse.quote(urllib.parse.unquote_plus(k), safe='-_.~'),
                                urllib.parse.quote(urllib.parse.unquote_plus(v), safe='-_.~')))
        can = '\n'.join([req.method, path, '&'.join(sorted(q))]
                        + ['%s:%s' % (n, h.get(n, '')) for n in names]
                        + ['', ';'.join(names), h['x-amz-content-sha256']])
        scope = '%s/%s/s3/aws4_request' % (date[:8], self.region)
        if cred != '%s/%s' % (self.login, scope):
            self.unauth('credential scope %r' % cred)
        if 'host' not in names or any(k not in names for k in h if k.startswith('x-amz-')):
            self.unauth('headers are not signed')

        def mac(k, d):
            return hmac.new(k, d.encode(), hashlib.sha256).digest()

        key = mac(mac(mac(mac(('AWS4' + self.password).encode(), date[:8]), self.region), 's3'),
                  'aws4_request')
        want = hmac.new(key, '\n'.join(['AWS4-HMAC-SHA256', date, scope,
                                        hashlib.sha256(can.encode()).hexdigest()]).encode(),
                        hashlib.sha256).hexdigest()
        if sig != want:
            self.unauth('%s %s is not signed correctly' % (req.method, req.target))

    async def handle(self, c, req):
        path, _, rawq = req.target.partition('?')
        query = urllib.parse.parse_qs(rawq, keep_blank_values=True)
        self.check_host(req)
        if self.sig == 4:
            self.check_v4(req, path, rawq)
        else:
            self.check_v2(req, path, query)
        path = urllib.parse.unquote(path)
        if path != '/' + self.name and not path.startswith('/' + self.name + '/'):
            return self.make_error(req, 404, 'NoSuchBucket')
        key = path[len(self.name) + 2 :]
        objs = self.b.objs
        if req.method == 'GET' and not key:
            return self.listing(query)
        if req.method == 'POST' and 'delete' in query:
            return self.bulk(req)
        if req.method == 'HEAD' and not key:
            return Response(200, [('x-amz-bucket-region', self.region or '')])
        if req.method in ('GET', 'HEAD'):
            o = objs.get(key)
            if o is None:
                return self.make_error(req, 404, 'NoSuchKey')
            r = Response(200, [('Content-Type', 'application/octet-stream'),
                               ('ETag', '"%s"' % hashlib.md5(o[0]).hexdigest())] + o[1], o[0])
            r.obj = True
            return r
        if req.method == 'PUT':
            md5 = hashlib.md5(req.body)
            body = req.body
            f = self.net.faults.get(str(req.num)) or {}
            if f.get('kind') == 'corrupt' and not self.net.healthy and body:
                # damaged on the way to the server
                body = bytes([body[0] ^ 1]) + body[1:]
                md5 = hashlib.md5(body)
                if self.on_error is not None:
                    self.on_error(req, f)
            want = req.headers.get('content-md5')
            if want and base64.b64decode(want) != md5.digest() and self.cfg.get('check_md5', True):
                return self.make_error(req, 400, 'BadDigest')
            if str(len(req.body)) != req.headers.get('content-length'):
                self.unauth('wrong length')
            self.b.put(key, body, [(k, v) for k, v in req.headers.items() if k.startswith('x-amz-meta-')])
            self.sim.ev('put', key)
            return Response(200, [('ETag', '"%s"' % md5.hexdigest())])
        if req.method == 'DELETE':
            if key not in objs and self.cfg.get('absent404'):
                return self.make_error(req, 404, 'NoSuchKey')
            objs.pop(key, None)
            self.sim.ev('delete', key)
            return Response(204)
        raise AssertionError(req.method)

    def listing(self, q):
        prefix = q.get('prefix', [''])[0]
        marker = q.get('marker', [''])[0]
        n = min(int(q.get('max-keys', ['1000'])[0]), self.cfg.get('page', 1000))
        names = sorted(k for k in self.b.objs if k.startswith(prefix) and k > marker)
        more = len(names) > n
        self.n_list += 1
        if more and marker and self.cfg.get('empty_pages') and self.n_list % 3 == 0:
            # a page without any key (keys that were just deleted)
            page = []
            nxt = marker
        else:
            page = names[:n]
            nxt = page[-1] if page else ''
        out = ['<ListBucketResult%s><Name>%s</Name><Prefix>%s</Prefix><MaxKeys>%d</MaxKeys>'
               '<IsTruncated>%s</IsTruncated>' % (' xmlns="%s"' % NS if self.cfg.get('ns', True) else '',
                                                  self.name, escape(prefix), n, str(more).lower())]
        if more and (not page or self.cfg.get('nextmarker')):
            out.append('<NextMarker>%s</NextMarker>' % escape(nxt))
        for k in page:
            out.append('<Contents><Key>%s</Key><Size>%d</Size></Contents>' % (escape(k), len(self.b.objs[k][0])))
        out.append('</ListBucketResult>')
        return self.xml(200, ''.join(out))

    def bulk(self, req):
        from xml.etree import ElementTree

        self.n_multi += 1
        md5 = req.headers.get('content-md5')
        if md5 is None or base64.b64decode(md5) != hashlib.md5(req.body).digest():
            self.unauth('bulk delete without checksum')
        names = [x.findtext('Key') for x in ElementTree.fromstring(req.body).findall('Object')]
        if len(names) > 1000 or not names:
            return self.make_error(req, 400, 'MalformedXML')
        f = self.multi.get(self.n_multi, {}) if not self.net.healthy else {}
        out = ['<DeleteResult xmlns="%s">' % NS if self.cfg.get('ns', True) else '<DeleteResult>']
        for i, k in enumerate(names):
            code = f.get(str(i % 7), None) if f else None
            if code == 'NoSuchKey' and k in self.b.objs:
                code = None
            if code is not None:
                self.sim.fired('multi-' + code)
                out.append('<Error><Key>%s</Key><Code>%s</Code><Message>no</Message></Error>' % (escape(k), code))
                continue
            if k not in self.b.objs and self.cfg.get('absent404'):
                out.append('<Error><Key>%s</Key><Code>NoSuchKey</Code><Message>no</Message></Error>' % escape(k))
                continue
            if self.b.objs.pop(k, None) is not None:
                self.sim.ev('delete', k)
            out.append('<Deleted><Key>%s</Key></Deleted>' % escape(k))
        out.append('</DeleteResult>')
        r = self.xml(200, ''.join(out))
        if self.cfg.get('forget_ctype'):
            r.headers = []
        return r


class B2Api(Base):
    def __init__(self, net, bucket, cfg, login, password, s3host):
        super().__init__(net, bucket, cfg)
        self.auth = 'Basic ' + base64.b64encode(('%s:%s' % (login, password)).encode()).decode()
        self.s3host = s3host

    TEMP = [(503,), (500,)]
    PERM = TEMP

    def make_error(self, req, status):
        return Response(status, [('Content-Type', 'application/json')], b'{"message": "no"}')

    async def handle(self, c, req):
        if req.headers.get('authorization') != self.auth:
            self.unauth('wrong credentials')
        return Response(200, [('Content-Type', 'application/json')], json.dumps(
            {'apiInfo': {'storageApi': {'s3ApiUrl': 'https://' + self.s3host}}}).encode())


class Swift(Base):
    '''Storage and (v1 or Keystone) authentication service'''

    TEMP = [(500, None), (502, None), (503, None), (504, None), (408, None), (429, None), (503, ''),
            (499, 'Client Disconnected'), (401, 'expired')]
    PERM = [(403, None), (501, None), (400, None)]

    def __init__(self, net, bucket, cfg, container, host, port, login, password):
        super().__init__(net, bucket, cfg)
        self.container = container
        self.host = host
        self.port = port
        self.login = login
        self.password = password
        self.token = None
        self.n_auth = 0

    def make_error(self, req, status, what):
        if what == 'expired':
            if '/auth' in req.target or req.target.startswith(('/v1.0', '/v2.0', '/v3', '/info')):
                return self.html(503)
            self.token = None
            return Response(401, [('Content-Type', 'text/plain')], b'expired')
        if what:
            return Response(status, [], b'', reason=what)
        if what == '':
            return Response(status, [])
        return self.html(status)

    def new_token(self):
        self.n_auth += 1
        self.token = 'tok-%d' % self.n_auth
        self.sim.ev('auth', self.n_auth)
        return self.token

    async def handle(self, c, req):
        path, _, rawq = req.target.partition('?')
        query = urllib.parse.parse_qs(rawq, keep_blank_values=True)
        path = urllib.parse.unquote(path)
        url = '%s://%s:%d/v1/AUTH_%s' % ('https' if self.port == 443 else 'http', self.host, self.port,
                                        'a b')
        if path in ('/v1.0', '/auth/v1.0'):
            if path == '/v1.0' and self.cfg.get('auth_path') != '/v1.0':
                return self.html(404)
            if req.headers.get('x-auth-user') != self.login or req.headers.get('x-auth-key') != self.password:
                return self.html(401)
            return Response(200, [('X-Storage-Url', urllib.parse.quote(url, safe=':/')),
                                  ('X-Auth-Token', self.new_token()),
                                  ('Date', 'x'), ('Date', 'y')])
        if path in ('/v2.0/tokens', '/v3/auth/tokens'):
            a = json.loads(req.body)['auth']
            ep = urllib.parse.quote(url, safe=':/')
            if path.startswith('/v2'):
                ok = a['passwordCredentials'] == {'username': 'user', 'password': self.password}
                ok = ok and a.get('tenantName') == 'ten'
                res = {'access': {'token': {'id': self.new_token()}, 'serviceCatalog': [
                    {'type': 'compute', 'endpoints': []},
                    {'type': 'object-store', 'endpoints': [{'region': 'r1', 'publicURL': 'http://x/'},
                                                           {'region': 'reg', 'publicURL': ep}]}]}}
                hdr = []
            else:
                ok = a['identity']['password']['user']['password'] == self.password
                hdr = [('X-Subject-Token', self.new_token())]
                res = {'token': {'catalog': [{'type': 'object-store', 'endpoints': [
                    {'region': 'reg', 'interface': 'internal', 'url': 'http://x/'},
                    {'region': 'reg', 'interface': 'public', 'url': ep}]}]}}
            if not ok:
                return self.html(401)
            return Response(200, [('Content-Type', 'application/json')] + hdr, json.dumps(res).encode())
        if path == '/info':
            if not self.cfg.get('info', True):
                return self.html(404)
            info = {'swift': {'version': '2.9.0', 'max_meta_value_length': self.cfg.get('meta_len', 256)}}
            if self.cfg.get('bulk'):
                info['bulk_delete'] = {'max_failed_deletes': self.cfg['bulk'],
                                       'max_deletes_per_request': self.cfg['bulk'] * 2}
            return Response(200, [('Content-Type', 'application/json; charset=UTF-8')], json.dumps(info).encode())
        if self.token is None or req.headers.get('x-auth-token') != self.token:
            return Response(401, [('Content-Type', 'text/plain')], b'who are you?')
        root = '/v1/AUTH_a b/' + self.container
        if not path.startswith(root):
            self.unauth('path %r' % path)
        key = path[len(root) + 1 :]
        objs = self.b.objs
        if req.method == 'POST' and 'bulk-delete' in query:
            return self.bulk(req)
        if req.method == 'GET' and not key:
            return self.listing(query)
        if req.method in ('GET', 'HEAD'):
            o = objs.get(key)
            if o is None:
                return self.html(404)
            r = Response(200, [('Content-Type', 'application/octet-stream'),
                               ('ETag', hashlib.md5(o[0]).hexdigest())] + o[1], o[0])
            r.obj = True
            return r
        if req.method == 'PUT':
            for k, v in req.headers.items():
                if k.startswith('x-object-meta-') and len(v) > self.cfg.get('meta_len', 256):
                    return self.html(400)
            body = req.body
            f = self.net.faults.get(str(req.num)) or {}
            if f.get('kind') == 'corrupt' and not self.net.healthy and body:
                # damaged on the way to the server (which does not look at Content-MD5)
                body = bytes([body[0] ^ 1]) + body[1:]
                if self.on_error is not None:
                    self.on_error(req, f)
            self.b.put(key, body, [(k, v) for k, v in req.headers.items() if k.startswith('x-object-meta-')])
            self.sim.ev('put', key)
            return Response(201, [('ETag', hashlib.md5(body).hexdigest())])
        if req.method == 'DELETE':
            if objs.pop(key, None) is None:
                return self.html(404)
            self.sim.ev('delete', key)
            return Response(204)
        raise AssertionError(req.method)

    def listing(self, q):
        prefix = q.get('prefix', [''])[0]
        marker = q.get('marker', [''])[0]
        n = int(q.get('limit', ['10000'])[0])
        names = sorted(k for k in self.b.objs if k.startswith(prefix) and k > marker)[:n]
        if 'format' not in q:
            return Response(200, [('Content-Type', 'text/plain; charset=utf-8')], '\n'.join(names).encode())
        if not names and self.cfg.get('empty204'):
            return Response(204)
        return Response(200, [('Content-Type', 'application/json; charset=utf-8')],
                        json.dumps([{'name': k, 'bytes': 1} for k in names]).encode(),
                        self.cfg.get('chunked', False))

    def bulk(self, req):
        self.n_multi += 1
        f = self.multi.get(self.n_multi, {}) if not self.net.healthy else {}
        lim = self.cfg['bulk']
        lines = req.body.decode().split('\n') if req.body else []
        res = {'Response Status': '200 OK', 'Response Body': '', 'Number Deleted': 0,
               'Number Not Found': 0, 'Errors': []}
        ctype = [('Content-Type', 'application/json')]
        if len(lines) > lim * 2:
            res['Response Status'] = '413 Request Entity Too Large'
            res['Response Body'] = 'Maximum Bulk Deletes: %d per request' % (lim * 2)
            return Response(200, ctype, json.dumps(res).encode())
        for i, line in enumerate(lines):
            name = urllib.parse.unquote(line.strip())
            code = f.get(str(i % 7))
            root = '/' + self.container + '/'
            if len(res['Errors']) >= lim:
                res['Response Status'] = '400 Bad Request'
                res['Response Body'] = 'Max delete failures exceeded'
                break
            if not name.startswith(root):
                self.unauth('bulk deletion of %r' % name)
            if code == 'broken':
                # the middleware failed in between
                self.sim.fired('multi-broken')
                res['Response Status'] = '500 Internal Error'
                break
            if code in ('503 Service Unavailable', '401 Unauthorized', '403 Forbidden', '409 Conflict'):
                self.sim.fired('multi-' + code)
                if code[:3] == '401':
                    self.token = None
                res['Errors'].append([urllib.parse.quote(name), code])
                continue
            if self.b.objs.pop(name[len(root) :], None) is None:
                res['Number Not Found'] += 1
            else:
                self.sim.ev('delete', name[len(root) :])
                res['Number Deleted'] += 1
        else:
            if res['Errors']:
                res['Response Status'] = '400 Bad Request'
                res['Response Body'] = ''
            elif not (res['Number Deleted'] or res['Number Not Found']):
                res['Response Status'] = '400 Bad Request'
                res['Response Body'] = 'Invalid bulk delete.'
            elif not res['Number Deleted'] and self.cfg.get('absent404'):
                res['Response Status'] = '404 Not Found'
        pad = b' ' * (3 if self.cfg.get('chunked') else 0)
        return Response(200, ctype, pad + json.dumps(res).encode(), self.cfg.get('chunked', False))


class GS(Base):
    TEMP = [(500, 'json'), (502, 'html'), (503, 'json'), (504, 'html'), (408, 'html'), (429, 'json'),
            (503, ''), (401, 'json')]
    PERM = [(403, 'json'), (400, 'json'), (412, 'json')]
    MSG = {403: 'Forbidden', 401: 'Invalid Credentials', 429: 'rateLimitExceeded'}

    def __init__(self, net, bucket, cfg, name):
        super().__init__(net, bucket, cfg)
        self.name = name
        self.tokens = {}  # token -> end of its life
        self.n_tok = 0

    def make_error(self, req, status, what):
        if status == 401:
            self.tokens.clear()
        if what == 'html':
            return self.html(status)
        if what == '':
            return Response(status, [])
        return Response(status, [('Content-Type', 'application/json; charset=UTF-8')],
                        json.dumps({'error': {'code': status, 'message': self.MSG.get(status, 'backendError'),
                                              'errors': []}}).encode())

    def js(self, obj, status=200):
        return Response(status, [('Content-Type', self.cfg.get('ctype', 'application/json; charset=UTF-8'))],
                        json.dumps(obj).encode(), self.cfg.get('chunked', False))

    async def handle(self, c, req):
        path, _, rawq = req.target.partition('?')
        query = urllib.parse.parse_qs(rawq, keep_blank_values=True)
        now = self.sim.elapsed()
        tok = req.headers.get('authorization', '').removeprefix('Bearer ')
        if self.tokens.get(tok, -1) < now:
            return self.make_error(req, 401, 'json')
        base = '/storage/v1/b/' + self.name
        objs = self.b.objs
        if path == base:
            return self.js({'kind': 'storage#bucket'})
        if path == base + '/o':
            return self.listing(query)
        if path == '/upload' + base + '/o' and req.method == 'POST':
            return self.upload(req)
        if not path.startswith(base + '/o/'):
            self.unauth('path %r' % path)
        key = path[len(base) + 3 :]
        if '/' in key:
            self.unauth('path %r' % path)
        key = urllib.parse.unquote(key)
        o = objs.get(key)
        if o is None:
            return self.make_error(req, 404, 'json' if self.cfg.get('json404', True) else 'html')
        if req.method == 'DELETE':
            del objs[key]
            self.sim.ev('delete', key)
            return Response(204)
        if query.get('alt') == ['media']:
            if query.get('generation', [str(o[2])]) != [str(o[2])]:
                return self.make_error(req, 404, 'json')
            r = Response(200, [('Content-Type', 'application/octet-stream'),
                               ('X-Goog-Generation', str(o[2])),
                               ('X-Goog-Hash', 'md5=' + base64.b64encode(hashlib.md5(o[0]).digest()).decode())],
                         o[0], self.cfg.get('chunked', False))
            r.obj = True
            return r
        return self.js({'name': key, 'size': str(len(o[0])), 'metadata': o[1], 'generation': str(o[2]),
                        'md5Hash': base64.b64encode(hashlib.md5(o[0]).digest()).decode()})

    def listing(self, q):
        prefix = q.get('prefix', [''])[0]
        start = q.get('pageToken', [''])[0].removeprefix('after:')
        n = min(int(q.get('maxResults', ['1000'])[0]), self.cfg.get('page', 1000))
        names = sorted(k for k in self.b.objs if k.startswith(prefix) and k > start)
        more = len(names) > n
        self.n_list += 1
        if more and self.cfg.get('empty_pages') and self.n_list % 3 == 0:
            page = []
            nxt = start
        else:
            page = names[:n]
            nxt = page[-1] if page else ''
        res = {'kind': 'storage#objects'}
        if page:
            res['items'] = [{'name': k} for k in page]
        if more:
            res['nextPageToken'] = 'after:' + nxt
        return self.js(res)

    def upload(self, req):
        m = re.match(r'multipart/related; boundary=(.+)$', req.headers['content-type'])
        sep = b'--' + m.group(1).encode()
        if not req.body.startswith(sep + b'\n') or not req.body.endswith(b'\n' + sep + b'--\n'):
            self.unauth('upload is not complete')
        rest = req.body[len(sep) + 1 : -len(sep) - 4]
        h1, _, rest = rest.partition(b'\n\n')
        meta, _, rest = rest.partition(b'\n' + sep + b'\n')
        h2, _, data = rest.partition(b'\n\n')
        meta = json.loads(meta)
        self.b.put(meta['name'], data, meta.get('metadata', {}))
        self.sim.ev('put', meta['name'])
        return self.js({'name': meta['name'], 'size': str(len(data))})


class GSAuth(Base):
    TEMP = [(503, 'html'), (500, 'json'), (502, 'html')]
    PERM = [(400, 'json')]

    def __init__(self, gs, password, life):
        super().__init__(gs.net, gs.b, gs.cfg)
        self.gs = gs
        self.password = password
        self.life = life

    def make_error(self, req, status, what):
        if what == 'html':
            return self.html(status)
        return Response(status, [('Content-Type', 'application/json; charset=utf-8')], json.dumps(
            {'error': 'invalid_grant' if status == 400 else 'internal_failure'}).encode())

    async def handle(self, c, req):
        q = urllib.parse.parse_qs(req.body.decode())
        if req.target != '/o/oauth2/token' or q.get('refresh_token') != [self.password]:
            self.unauth('wrong token request')
        self.gs.n_tok += 1
        tok = 'ya29.%d' % self.gs.n_tok
        self.gs.tokens[tok] = self.sim.elapsed() + self.life
        self.sim.ev('auth', tok)
        return self.gs.js({'access_token': tok, 'expires_in': self.life, 'token_type': 'Bearer'})


# ---------------------------------------------------------------- one of everything

KINDS = ['s3c', 's3c4', 's3', 'b2', 'swift', 'swiftks', 'gs']


def gen_server(rng, kinds=None):
    kind = rng.choice(kinds or KINDS)
    cfg = {'kind': kind, 'page': rng.choice((1000, 1000, 2, 3)), 'absent404': rng.random() < 0.4,
           'chunked': rng.random() < 0.3, 'empty_pages': rng.random() < 0.2,
           'nextmarker': rng.random() < 0.3, 'ns': rng.random() < 0.8,
           'ctype': rng.choice(('application/xml', 'text/xml; charset=utf-8')),
           'check_md5': rng.random() < 0.7, 'forget_ctype': rng.random() < 0.2,
           'ssl': rng.random() < 0.4, 'port': rng.choice((None, None, 8080)),
           'auth_path': rng.choice(('/v1.0', '/auth/v1.0')), 'info': rng.random() < 0.8,
           'bulk': rng.choice((None, 2, 5, 1000)), 'meta_len': rng.choice((256, 256, 100)),
           'empty204': rng.random() < 0.5, 'life': rng.choice((3600, 3600, 301, 400)),
           'json404': rng.random() < 0.8, 'keystone': rng.choice((2, 3)),
           'expect': rng.random() < 0.8, 'prefix': rng.choice(('', 'my/fs_', 'pre'))}
    if not cfg['info']:
        cfg['meta_len'] = 256
    if kind == 'gs':
        cfg['ctype'] = rng.choice(('application/json; charset=UTF-8', 'application/json',
                                   'application/json; charset="utf-8"'))
    return cfg


async def make(net, bucket, cfg, conns):
    '''Return (backend, servers) for the service of *cfg*'''
    kind = cfg['kind']
    opts = {}
    prefix = cfg['prefix']
    login, password = 'mylogin', 'mypassword'
    if kind in ('s3c', 's3c4'):
        host = 'store.example.com'
        port = cfg['port'] or (443 if cfg['ssl'] else 80)
        if not cfg['ssl']:
            opts['no-ssl'] = True
        if not cfg['expect']:
            opts['disable-expect100'] = True
        if kind == 's3c4':
            opts['sig-region'] = 'reg-1'
        srv = S3(net, bucket, cfg, 'buck', host, port, login, password, 4 if kind == 's3c4' else 2, 'reg-1')
        url = '%s://%s%s/buck/%s' % (kind, host, ':%d' % cfg['port'] if cfg['port'] else '', prefix)
        if kind == 's3c':
            from s3ql.backends.s3c import AsyncBackend
        else:
            from s3ql.backends.s3c4 import AsyncBackend
        net.servers[host, port] = srv
        extra = []
    elif kind == 's3':
        from s3ql.backends.s3 import AsyncBackend

        host = 's3.eu-west-1.amazonaws.com'
        port = 443 if cfg['ssl'] else 80
        if not cfg['ssl']:
            opts['no-ssl'] = True
        srv = S3(net, bucket, cfg, 'buck', host, port, login, password, 4, 'eu-west-1')
        url = 's3://eu-west-1/buck/' + prefix
        net.servers[host, port] = srv
        extra = []
    elif kind == 'b2':
        from s3ql.backends.b2ng import AsyncBackend

        host = 's3.eu-central-003.backblazeb2.com'
        srv = S3(net, bucket, cfg, 'buckets', host, 443, login, password, 4, 'eu-central-003')
        url = 'b2://buckets/' + prefix
        net.servers[host, 443] = srv
        api = B2Api(net, bucket, cfg, login, password, host)
        net.servers['api.backblazeb2.com', 443] = api
        extra = [api]
    elif kind in ('swift', 'swiftks'):
        host = 'swift.example.com'
        port = cfg['port'] or 443
        if not cfg['expect']:
            opts['disable-expect100'] = True
        srv = Swift(net, bucket, cfg, 'cont ainer' if kind == 'swift' else 'cont', host, port, login, password)
        net.servers[host, port] = srv
        extra = []
        if kind == 'swift':
            from s3ql.backends.swift import AsyncBackend

            url = 'swift://%s%s/%s/%s' % (host, ':%d' % cfg['port'] if cfg['port'] else '', 'cont ainer', prefix)
            if port != 443:
                opts['no-ssl'] = True
        else:
            from s3ql.backends.swiftks import AsyncBackend

            login = 'ten:user'
            url = 'swiftks://%s%s/reg:cont/%s' % (host, ':%d' % cfg['port'] if cfg['port'] else '', prefix)
            if cfg['keystone'] == 3:
                opts['domain'] = 'dom'
    else:
        from s3ql.backends.gs import AsyncBackend

        login, password = 'oauth2', 'refresh-me'
        srv = GS(net, bucket, cfg, 'buck')
        net.servers['www.googleapis.com', 443] = srv
        auth = GSAuth(srv, password, cfg['life'])
        net.servers['accounts.google.com', 443] = auth
        url = 'gs://buck/' + prefix
        extra = [auth]
    was = net.healthy
    net.healthy = True
    b = await AsyncBackend.create(storage_url=url, backend_options=opts, backend_login=login,
                                  backend_password=password, max_connections=conns)
    net.healthy = was
    net.n_req = net.n_conn = 0
    return b, [srv] + extra
