'''In-memory storage service and the raw backend that talks to it.

The service (`SimStore`) is the only thing that survives the loss of a machine.  `SimBackend` is an
`AsyncBackend` with the same contract as the network backends: bounded connections, latency,
temporary and permanent failures before or after the request took effect, partial downloads.
The real `retry` wrapper and the real `AsyncComprencBackend` run on top of it.
'''

import collections
import copy

import trio


class StoredObject:
    __slots__ = ('data', 'meta', 'serial')

    def __init__(self, data, meta, serial):
        self.data = data
        self.meta = meta
        self.serial = serial


class SimStore:
    def __init__(self):
        self.objects = {}
        self.serial = 0
        self.req = 0
        self.pending = {}  # request number -> (kind, key, data, meta): sent, not yet applied
        self.faults = {}  # request number -> fault dict
        self.rules = []  # list of rule dicts, see _rule()
        self.history = collections.defaultdict(list)  # key -> [(serial, crc of data)] for audits
        self.deleted = []
        self.requests = collections.Counter()
        self.put_count = collections.Counter()
        self.acked = set()  # data objects whose PUT has been answered
        self.gone = set()  # data objects that have been deleted
        self.reused = []  # data objects stored again after either

    # -- state changes

    def put(self, key, data, meta):
        self.serial += 1
        self.objects[key] = StoredObject(bytes(data), dict(meta), self.serial)
        self.put_count[key] += 1
        if key.startswith('s3ql_data_') and (key in self.acked or key in self.gone):
            self.reused.append(key)

    def remove(self, key):
        self.gone.add(key)
        return self.objects.pop(key, None) is not None

    def clone(self):
        n = copy.copy(self)
        n.objects = {
            k: StoredObject(o.data, dict(o.meta), o.serial) for k, o in self.objects.items()
        }
        n.pending = dict(self.pending)
        n.faults = dict(self.faults)
        n.rules = copy.deepcopy(self.rules)
        n.requests = collections.Counter(self.requests)
        n.put_count = collections.Counter(self.put_count)
        n.deleted = list(self.deleted)
        n.acked, n.gone, n.reused = set(self.acked), set(self.gone), list(self.reused)
        return n

    def settle(self, choose):
        '''The client died: each request in flight takes effect or does not'''
        for _num, (kind, key, data, meta) in sorted(self.pending.items()):
            if choose():
                if kind == 'put':
                    self.put(key, data, meta)
                elif kind == 'del':
                    self.remove(key)
        self.pending.clear()

    def keys(self, prefix=''):
        return sorted(k for k in self.objects if k.startswith(prefix))

    def data_ids(self):
        return sorted(int(k[10:]) for k in self.objects if k[10:].isdigit() and k.startswith('s3ql_data_'))


class TempFailure(Exception):
    def __init__(self, what, retry_after=None):
        super().__init__(what)
        self.retry_after = retry_after


class PermFailure(Exception):
    pass


def make_backend_class(get_sim, get_store):
    '''Return an AsyncBackend class bound to the current simulation'''

    from s3ql.backends.common import AsyncBackend, NoSuchObject, _FACTORY_SENTINEL, retry

    class SimBackend(AsyncBackend):
        needs_login = False
        known_options = {'x'}

        def __init__(self, max_connections, latency):
            super().__init__(_factory_sentinel=_FACTORY_SENTINEL)
            self._max = max_connections
            self._lim = None
            self.latency = latency

        @classmethod
        async def create(
            cls,
            *,
            storage_url,
            backend_options,
            backend_login='',
            backend_password='',
            max_connections=1,
        ):
            return cls(max_connections, get_sim().backend_latency)

        @property
        def max_connections(self):
            return self._max

        def is_temp_failure(self, exc):
            return isinstance(exc, TempFailure)

        def __str__(self):
            return 'sim://'

        async def _request(self, kind, key, apply, *, data=None, meta=None):
            sim = get_sim()
            store = get_store()
            if self._lim is None:
                self._lim = trio.CapacityLimiter(self._max)
            token = object()
            await self._lim.acquire_on_behalf_of(token)
            num = None
            fault = None
            sim.busy += 1
            try:
                store.req += 1
                num = store.req
                store.requests[kind] += 1
                sim.ev('req', kind, key, num)
                fault = sim.backend_fault(store, num, kind, key)
                if data is not None:
                    store.pending[num] = ('put', key, data, meta)
                elif kind == 'delete':
                    store.pending[num] = ('del', key, None, None)
                await sim.pause(sim.rng_net, self.latency)
                if fault and fault['kind'] == 'slow':
                    sim.fired('slow')
                    await trio.sleep(fault['secs'])
                if fault and fault['kind'] == 'stall':
                    # no answer until the client gives up on the connection (a timeout)
                    sim.fired('stall')
                    await trio.sleep(fault['secs'])
                    raise TempFailure('timeout')
                if fault and fault['kind'] == 'temp':
                    sim.fired('temp-before')
                    raise TempFailure('temporary failure', fault.get('retry_after'))
                if fault and fault['kind'] == 'perm':
                    sim.fired('perm')
                    raise PermFailure('permanent failure of %s %s' % (kind, key))
                store.pending.pop(num, None)
                sim.ev('apply', kind, key, num)
                res = apply(fault)
                sim.ev('applied', kind, key, num)
                await sim.pause(sim.rng_net, self.latency)
                if fault and fault['kind'] == 'lost':
                    sim.fired('lost-answer')
                    raise TempFailure('connection lost')
                if fault and fault['kind'] == 'permlost':
                    sim.fired('perm-after-apply')
                    raise PermFailure('failure after %s %s took effect' % (kind, key))
                return res
            finally:
                sim.busy -= 1
                if fault:
                    sim.last_fault = sim.elapsed()
                store.pending.pop(num, None)
                self._lim.release_on_behalf_of(token)

        def _get(self, key, what):
            store = get_store()
            obj = store.objects.get(key)
            if obj is None:
                raise NoSuchObject(key)
            return obj

        async def readinto_fh(self, key, fh):
            return await self._readinto_fh(key, fh, fh.tell())

        @retry
        async def _readinto_fh(self, key, fh, off):
            sim = get_sim()

            def apply(fault):
                obj = self._get(key, 'read')
                fh.seek(off)
                if fault and fault['kind'] == 'lost' and len(obj.data) > 1:
                    fh.write(obj.data[: max(1, len(obj.data) // 2)])
                else:
                    fh.write(obj.data)
                return dict(obj.meta)

            res = await self._request('get', key, apply)
            sim.ev('got', key)
            return res

        async def write_fh(self, key, fh, metadata=None):
            return await self._write_fh(key, fh, metadata or {})

        @retry
        async def _write_fh(self, key, fh, metadata):
            fh.seek(0)
            data = fh.read()

            def apply(fault):
                get_store().put(key, data, metadata)
                if get_sim().on_put is not None:
                    get_sim().on_put(key)

            await self._request(
                'put',
                key,
                apply,
                data=data,
                meta=metadata,
            )
            get_store().acked.add(key)
            return len(data)

        @retry
        async def lookup(self, key):
            return await self._request('head', key, lambda f: dict(self._get(key, 'head').meta))

        @retry
        async def get_size(self, key):
            return await self._request('head', key, lambda f: len(self._get(key, 'size').data))

        @retry
        async def delete(self, key):
            def apply(fault):
                store = get_store()
                if store.remove(key):
                    store.deleted.append(key)

            await self._request('delete', key, apply)

        async def list(self, prefix=''):
            start = ''
            page = get_sim().list_page
            while True:
                keys = await self._list_page(prefix, start, page)
                for k in keys:
                    yield k
                if len(keys) < page:
                    return
                start = keys[-1]

        @retry
        async def _list_page(self, prefix, start, page):
            return await self._request(
                'list',
                prefix,
                lambda f: [k for k in get_store().keys(prefix) if k > start][:page],
            )

        async def close(self):
            pass

    return SimBackend
