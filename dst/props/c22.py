'''C22: key locks exclude each other and never lose a wake-up.'''

from .. import comp, gen as G

PROP = 'C22'
RUNS = {'quick': 2500, 'thorough': 90000}
RULE = ('One run: up to 16 tasks acquire, try, hold and release the locks of up to 10 keys (also '
        'releasing for another task), under a seeded scheduler, with cancellation at any moment while '
        'waiting, holding or releasing. At most one holder per key; a free key is got at once, whatever '
        'happens to other keys; every waiter proceeds once the holders are gone; at the end every key '
        'is free.')
NOTE = 'Real MultiLock on the real trio scheduler, whose order of tasks is drawn from the seed.'


def gen(rng, idx, tier):
    keys = rng.choice((1, 2, 4, 10))
    tasks = []
    for _ in range(rng.choice((2, 3, 5, 8, 12, 16))):
        ops = []
        for _ in range(rng.choice((1, 2, 4, 8))):
            ops.append({
                'key': rng.randrange(keys),
                'how': rng.choice(('with', 'with', 'acquire', 'nowait', 'hand', 'noerror')),
                'hold': rng.choice((0, 0, 0.0, 0.1, 1.0)),
                'yields': rng.choice((0, 0, 1, 3)),
                'think': rng.choice((0, 0, 0.1, 0.5)),
                'cancel': rng.choice((None, None, None, 0.0, 0.05, 0.1, 0.3, 1.0)),
                'cyield': rng.randrange(6),
            })
        tasks.append(ops)
    return {'cfg': {'policy': rng.choice(('shuffle', 'pct', 'lifo', 'fifo'))}, 'clients': tasks,
            'keys': keys}


def execute(plan, holder):
    return comp.run(plan, holder, 'multilock', body)


async def body(sim, plan, probe):
    import trio
    from s3ql.multi_lock import MultiLock

    lock = MultiLock()
    holder = {}
    busy = {k: 0 for k in range(plan['keys'])}  # tasks that hold, want or give back the key
    free_since = {}

    def got(k, who, t0):
        sim.ev('got', k, who)
        now = trio.current_time()
        t = max(t0, free_since.get(k, t0))
        if holder.get(k) is None and now > t:
            comp.fail(sim, 'blocked', 'task %s got lock %s %.2f s after it was free' % (who, k, now - t))
        if holder.get(k) is not None:
            comp.fail(sim, 'exclusion', 'task %s got lock %s held by %s' % (who, k, holder[k]))
        holder[k] = who
        probe('acquired')

    def leave(k, who):
        if holder.get(k) != who:
            comp.fail(sim, 'stolen', 'lock %s of task %s is held by %s' % (k, who, holder.get(k)))
        holder[k] = None
        free_since[k] = trio.current_time()

    async def hold(op):
        for _ in range(op['yields']):
            await trio.lowlevel.checkpoint()
        if op['hold']:
            await trio.sleep(op['hold'])

    async def use(op, who, nursery):
        k = op['key']
        how = op['how']
        busy[k] += 1
        t0 = trio.current_time()
        given = False
        try:
            if how == 'nowait':
                ok = lock.acquire_nowait(k)
                if ok:
                    got(k, who, t0)
                    try:
                        await hold(op)
                    finally:
                        leave(k, who)
                        await lock.release(k)
                else:
                    probe('nowait-refused')
                return
            if how == 'with':
                async with lock(k):
                    got(k, who, t0)
                    try:
                        await hold(op)
                    finally:
                        leave(k, who)
                return
            await lock.acquire(k)
            got(k, who, t0)
            if how == 'hand':
                # another task gives it back
                given = True

                async def give():
                    try:
                        await hold(op)
                    finally:
                        leave(k, who)
                        try:
                            await lock.release(k)
                        finally:
                            busy[k] -= 1

                nursery.start_soon(give)
                return
            try:
                await hold(op)
            finally:
                leave(k, who)
                await lock.release(k, noerror=how == 'noerror')
        finally:
            if not given:
                busy[k] -= 1

    async def client(num, ops, nursery):
        for i, op in enumerate(ops):
            who = '%d.%d' % (num, i)
            with trio.CancelScope() as scope:
                async with trio.open_nursery() as n:
                    if op['cancel'] is not None:
                        async def killer():
                            if op['cancel']:
                                await trio.sleep(op['cancel'])
                            for _ in range(op['cyield']):
                                await trio.lowlevel.checkpoint()
                            scope.cancel()
                        n.start_soon(killer)
                    await use(op, who, nursery)
                    n.cancel_scope.cancel()
            if scope.cancelled_caught:
                sim.fired('cancelled')
            if op['think']:
                await trio.sleep(op['think'])

    # everything is done within the sum of all holds
    limit = 10 + sum((op['hold'] or 0) + (op['think'] or 0) + (op['cancel'] or 0)
                     for ops in plan['clients'] for op in ops)
    with trio.move_on_after(limit) as s:
        async with trio.open_nursery() as nursery:
            for num, ops in enumerate(plan['clients']):
                nursery.start_soon(client, num, ops, nursery)
    if s.cancelled_caught:
        comp.fail(sim, 'lost-wakeup', 'tasks still wait for locks that nobody holds: %s' % (
            sorted(k for k in busy if busy[k])))
    for k in range(plan['keys']):
        if not lock.acquire_nowait(k):
            comp.fail(sim, 'left-behind', 'lock %s is still taken although nobody holds it' % k)
