'''C20: temporary failures are retried with bounded backoff, permanent ones at once.'''

from .. import comp

PROP = 'C20'
RUNS = {'quick': 1300, 'thorough': 40000}
RULE = ('One run: several tasks use the real storage stack (encryption wrapper and retry wrapper) over a '
        'simulated service that fails for a generated number of attempts or for ever, temporarily (with or '
        'without a delay asked for) or permanently, while the wall clock jumps. Judged on the recorded '
        'attempts: pauses grow, stay within the documented maximum, honour the delay asked for; attempts '
        'go on for the documented 24 h and not much longer; they stop at the first success; a permanent '
        'failure is reported after one attempt.')
NOTE = ('Simulated time only, so that full 24 h outages are part of every batch. The documented numbers '
        '(5 minutes between attempts plus up to half as much random variation, 24 h in total) are '
        'constants of the check.')

OPS = ['lookup', 'fetch', 'store', 'delete', 'get_size', 'list', 'contains', 'delete_multi']
KIND = {'lookup': 'head', 'fetch': 'get', 'store': 'put', 'delete': 'delete', 'get_size': 'head',
        'list': 'list', 'contains': 'head', 'delete_multi': 'delete'}
MAX_PAUSE = 300
TOTAL = 24 * 3600


def gen(rng, idx, tier):
    tasks = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            n = rng.choice((0, 1, 2, 3, 5, 10, 20, 40, 10 ** 6))
            fails = {'n': n, 'retry_after': None, 'then': rng.choice(('ok', 'ok', 'ok', 'perm', 'absent')),
                     'lost': rng.random() < 0.2, 'slow': rng.choice((0, 0, 0, 20.0)),
                     'wrong': rng.choice((None, None, 'perm'))}
            if rng.random() < 0.4:
                fails['retry_after'] = rng.choice((0.5, 3, 60, 299, 400, 3600, 7200))
                fails['every'] = rng.choice((1, 1, 2, 5))
            ops.append({'op': rng.choice(OPS), 'fails': fails,
                        'cancel': rng.choice((None, None, None, None, 1.0, 500.0, 40000.0))})
        tasks.append(ops)
    return {'cfg': {'plain': rng.random() < 0.5, 'policy': rng.choice(('shuffle', 'fifo', 'pct'))},
            'clients': tasks, 'conns': rng.choice((1, 2, 4, 8)),
            'jumps': [[rng.choice((1.0, 100.0, 5000.0, 80000.0)),
                       rng.choice((-3600.0, 3600.0, 86400.0 * 30, -86400.0 * 400, 0.0))]
                      for _ in range(rng.choice((0, 1, 3)))]}


def execute(plan, holder):
    return comp.run(plan, holder, 'retry', body)


async def body(sim, plan, probe):
    import trio
    from s3ql.authinfo import Authinfo, CompressSpec
    from s3ql.backends import open_raw_backend
    from s3ql.backends.common import NoSuchObject
    from s3ql.backends.comprenc import AsyncComprencBackend
    from .. import world
    from ..store import PermFailure, TempFailure

    store = world._cur_store
    AsyncComprencBackend.set_max_threads(2)
    raw = await open_raw_backend('sim://', Authinfo(), max_connections=plan['conns'])
    backend = await AsyncComprencBackend.create(
        None if plan['cfg']['plain'] else b'secret', CompressSpec.parse('zlib-1'), raw)
    tasks = {}

    def decide(store_, num, kind, key):
        t = tasks.get(key) or tasks.get(key[:8])
        if t is None:
            return None
        f = t['fails']
        if t['kind'] != kind:
            return None
        t['attempts'] += 1
        n = t['attempts']
        if n <= f['n']:
            ra = f['retry_after']
            if ra is not None and n % f.get('every', 1):
                ra = None
            if f['lost'] and f['then'] != 'absent' and kind in ('get', 'head', 'list'):
                t['asked'] = None
                return {'kind': 'lost'}
            t['asked'] = ra
            if f['slow']:
                t['asked'] = None
                return {'kind': 'stall', 'secs': f['slow']}
            return {'kind': 'temp', 'retry_after': ra}
        t['asked'] = None
        if f['then'] == 'perm':
            t['perm'] = True
            return {'kind': 'perm'}
        return None

    sim.backend_fault = decide

    # the moments at which requests are sent and answered
    real = type(raw)._request

    async def request(self, kind, key, apply, **kw):
        t = tasks.get(key) or tasks.get(key[:8])
        mine = t is not None and kind == t['kind']
        if mine:
            t['begin'].append(trio.current_time())
        try:
            return await real(self, kind, key, apply, **kw)
        finally:
            if mine:
                t['end'].append(trio.current_time())
                t['asks'].append(t.pop('asked', None))

    type(raw)._request = request

    async def one(name, op):
        k = op['op']
        t = {'fails': op['fails'], 'kind': KIND[k], 'attempts': 0, 'begin': [], 'end': [], 'asks': []}
        absent = op['fails']['then'] == 'absent'
        if k != 'store' and not absent:
            await backend.store(name, b'x' * 100)
        tasks[name] = t
        exc = None
        res = None
        done = False
        with trio.CancelScope() as scope:
            if op['cancel'] is not None:
                scope.deadline = trio.current_time() + op['cancel']
            try:
                if k == 'lookup':
                    res = await backend.lookup(name)
                elif k == 'fetch':
                    res = (await backend.fetch(name))[0]
                elif k == 'store':
                    res = await backend.store(name, b'y' * 50)
                elif k == 'delete':
                    res = await backend.delete(name)
                elif k == 'get_size':
                    res = await backend.get_size(name)
                elif k == 'contains':
                    res = await backend.contains(name)
                elif k == 'delete_multi':
                    res = await backend.delete_multi([name])
                else:
                    res = [x async for x in backend.list(name)]
            except Exception as e:
                while isinstance(e, ExceptionGroup) and len(e.exceptions) == 1:
                    e = e.exceptions[0]
                exc = e
            done = True
        del tasks[name]
        n = len(t['begin'])
        if scope.cancelled_caught and not done:
            sim.fired('cancelled')
            probe('cancelled')
        judge(op, t, k, exc, res, n, scope.cancelled_caught and not done, absent, name)
        if not t['begin']:
            return
        # nothing goes on in the background
        await trio.sleep(1000)
        if len(t['begin']) != n:
            comp.fail(sim, 'background', '%s goes on after it returned' % k)

    def judge(op, t, k, exc, res, n, cancelled, absent, name):
        f = op['fails']
        pauses = [b - e for e, b in zip(t['end'], t['begin'][1:])]
        for i, p in enumerate(pauses):
            asked = t['asks'][i]
            if asked is not None:
                probe('asked-for-delay')
                if p < asked * 0.999:
                    comp.fail(sim, 'early', '%s: attempt %d after %.3f s, %.1f s were asked for'
                              % (k, i + 2, p, asked))
                if p > 1.5 * asked + 451:
                    comp.fail(sim, 'late', '%s: attempt %d after %.1f s, %.1f s were asked for'
                              % (k, i + 2, p, asked))
                continue
            # waiting for one of the connections is not a pause of the retry wrapper
            slack = 0 if plan['conns'] >= len(plan['clients']) else 40
            if p > MAX_PAUSE * 1.5 + 1 + slack:
                comp.fail(sim, 'late', '%s: attempt %d after a pause of %.1f s' % (k, i + 2, p))
            if p <= 0:
                comp.fail(sim, 'no-pause', '%s: attempt %d without a pause' % (k, i + 2))
            if i and not slack and all(a is None for a in t['asks'][:i + 1]):
                if p < min(pauses[i - 1], MAX_PAUSE) * 0.999:
                    comp.fail(sim, 'shrinking', '%s: the pauses do not grow: %s'
                              % (k, ['%.2f' % x for x in pauses[:i + 1]]))
        if n > f['n'] + 1 and not cancelled:
            comp.fail(sim, 'again', '%s: %d attempts, the first %d failed' % (k, n, f['n']))
        if cancelled:
            return
        waited = (t['begin'][-1] - t['begin'][0]) if n else 0
        if n == 0:
            comp.fail(sim, 'nothing', '%s did not try anything' % k)
        if n <= f['n']:
            # gave up
            probe('gave-up')
            if exc is None:
                comp.fail(sim, 'silent', '%s returned %r although every attempt failed' % (k, res))
            if not isinstance(exc, (TimeoutError, TempFailure)):
                comp.fail(sim, 'error', '%s gave up with %r' % (k, exc))
            if isinstance(exc, TimeoutError) and not isinstance(exc.__cause__, TempFailure):
                comp.fail(sim, 'error', 'the error does not say why: %r' % (exc.__cause__,))
            if waited < TOTAL * 0.99:
                comp.fail(sim, 'gave-up-early', '%s: gave up after %.0f s and %d attempts' % (k, waited, n))
            asks = sum(1.5 * a for a in t['asks'] if a is not None)
            if waited > TOTAL * 1.5 + n * (f['slow'] + 45) + 3600 + asks:
                comp.fail(sim, 'gave-up-late', '%s: gave up after %.0f s' % (k, waited))
            return
        if f['then'] == 'perm':
            probe('permanent')
            if not isinstance(exc, PermFailure):
                comp.fail(sim, 'error', '%s: permanent failure gave %r, %r' % (k, exc, res))
            if f['n'] == 0 and n != 1:
                comp.fail(sim, 'again', '%s: %d attempts after a permanent failure' % (k, n))
            return
        if f['n']:
            probe('recovered')
        if absent and k in ('lookup', 'fetch', 'get_size'):
            if not isinstance(exc, NoSuchObject):
                comp.fail(sim, 'error', '%s of an absent object: %r' % (k, exc))
            return
        if exc is not None:
            comp.fail(sim, 'error', '%s failed after %d attempts with %r' % (k, n, exc))
        want = {'fetch': b'x' * 100, 'contains': not absent, 'list': [] if absent else [name]}
        if k in want and res != want[k]:
            comp.fail(sim, 'result', '%s returned %r' % (k, res))
        if k in ('store', 'delete', 'delete_multi') and (name in store.objects) != (k == 'store'):
            comp.fail(sim, 'effect', '%s had no effect' % k)

    async def client(num, ops):
        for i, op in enumerate(ops):
            await one('t%02d-%03d-' % (num, i), op)

    async def clock():
        for at, by in plan['jumps']:
            await trio.sleep(at)
            sim.skew += by
            sim.fired('clock-jump')

    async with trio.open_nursery() as n:
        n.start_soon(clock)
        for num, ops in enumerate(plan['clients']):
            n.start_soon(client, num, ops)
