'''C21: walking the cache order while it changes is safe and complete.'''

import collections

from .. import comp

PROP = 'C21'
RUNS = {'quick': 2500, 'thorough': 90000}
RULE = ('One run: several tasks insert, remove, replace and move entries of one LinkedDict while others '
        'walk it with mutable_values(), some abandoning the walk, under a seeded scheduler. Each walk '
        'returns only entries that are present at that moment, every entry that was present and not '
        'removed throughout, those that were not moved exactly once and in least-recently-used order; it '
        'ends once changes stop; afterwards content and order equal a reference model.')
NOTE = 'Real (compiled) LinkedDict; the order of tasks is drawn from the seed.'


def gen(rng, idx, tier):
    keys = rng.choice((1, 2, 3, 6, 12))
    tasks = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        tasks.append([{'op': rng.choice(('set', 'set', 'del', 'move', 'move', 'pop', 'get', 'yield', 'walk')),
                       'key': rng.randrange(keys), 'stop': rng.choice((None, None, None, 0, 1, 2)),
                       'yields': rng.choice((0, 0, 1, 2))}
                      for _ in range(rng.choice((5, 15, 40)))])
    for _ in range(rng.choice((0, 1, 2, 3))):
        tasks.append([{'op': 'walk', 'key': 0, 'stop': rng.choice((None, None, None, 1, 3)),
                       'yields': rng.choice((0, 1, 1, 2))} for _ in range(rng.choice((1, 3, 6)))])
    return {'cfg': {'policy': rng.choice(('shuffle', 'pct', 'lifo', 'fifo'))}, 'clients': tasks,
            'fill': rng.randrange(keys + 1)}


def execute(plan, holder):
    return comp.run(plan, holder, 'linkeddict', body)


async def body(sim, plan, probe):
    import trio
    from s3ql._linked_dict import LinkedDict

    d = LinkedDict()
    model = collections.OrderedDict()
    serial = [0]
    walks = {}
    changing = [len(plan['clients'])]

    def new(k):
        serial[0] += 1
        return (k, serial[0])

    def touched(v, moved):
        for w in walks.values():
            if moved:
                w['moved'].add(v)
            else:
                w['gone'].add(v)

    def put(k):
        v = new(k)
        if k in model:
            touched(model[k], False)
            for w in walks.values():
                # the new value sits in the same place
                if model[k] in w['start'] and model[k] not in w['seen'] and model[k] not in w['moved']:
                    w['same'].add(v)
        d[k] = v
        model[k] = v

    for k in range(plan['fill']):
        put(k)

    async def walk(op):
        it = d.mutable_values()
        w = {'start': [], 'seen': [], 'gone': set(), 'moved': set(), 'same': set()}
        first = True
        steps = 0
        quiet = 0
        while True:
            if first:
                w['start'] = list(model.values())
                walks[id(w)] = w
                first = False
            if not changing[0]:
                quiet += 1
                if quiet > 4 * (len(model) + len(plan['clients'])) + 10:
                    comp.fail(sim, 'endless', 'a walk does not end although nothing changes')
            try:
                v = next(it)
            except StopIteration:
                break
            if not isinstance(v, tuple) or model.get(v[0]) != v:
                comp.fail(sim, 'removed', 'a walk returned %r, which is not in the mapping' % (v,))
            w['seen'].append(v)
            steps += 1
            if op['stop'] is not None and steps > op['stop']:
                it.close()
                del walks[id(w)]
                probe('abandoned')
                return
            for _ in range(op['yields']):
                await trio.lowlevel.checkpoint()
        del walks[id(w)]
        probe('walks')
        stay = [v for v in w['start'] if v not in w['gone']]
        missing = [v for v in stay if v not in w['seen']]
        if missing:
            comp.fail(sim, 'skipped', 'a walk did not return %s (order at the start: %s, returned: %s)'
                      % (missing, w['start'], w['seen']))
        fixed = [v for v in stay if v not in w['moved']]
        got = [v for v in w['seen'] if v in fixed]
        if got != fixed:
            comp.fail(sim, 'order', 'returned %s, the order is %s' % (got, fixed))
        if w['moved'] or w['gone']:
            probe('walks-under-change')

    async def client(ops):
        try:
            for op in ops:
                k = op['key']
                kind = op['op']
                sim.ev(kind, k)
                if kind == 'set':
                    put(k)
                elif kind in ('del', 'pop', 'move'):
                    try:
                        if kind == 'del':
                            del d[k]
                        elif kind == 'pop':
                            v = d.pop(k)
                            if v != model.get(k):
                                comp.fail(sim, 'pop', 'pop returned %r, not %r' % (v, model.get(k)))
                        else:
                            d.move_to_tail(k)
                        there = True
                    except KeyError:
                        there = False
                    if there != (k in model):
                        comp.fail(sim, 'content', '%s of %r: %s' % (kind, k, there))
                    if there:
                        touched(model[k], kind == 'move')
                        if kind == 'move':
                            model.move_to_end(k)
                        else:
                            del model[k]
                elif kind == 'get':
                    if d.get(k) != model.get(k) or (k in d) != (k in model) or len(d) != len(model):
                        comp.fail(sim, 'content', 'get of %r: %r, not %r' % (k, d.get(k), model.get(k)))
                elif kind == 'walk':
                    await walk(op)
                for _ in range(op['yields'] or (kind == 'yield')):
                    await trio.lowlevel.checkpoint()
        finally:
            changing[0] -= 1

    async with trio.open_nursery() as nursery:
        for ops in plan['clients']:
            nursery.start_soon(client, ops)
    if list(d.mutable_values()) != list(model.values()):
        comp.fail(sim, 'order', 'order %s, expected %s' % (list(d.mutable_values()), list(model.values())))
    if sorted(d.items()) != sorted(model.items()) or sorted(d.values()) != sorted(model.values()):
        comp.fail(sim, 'content', 'content differs')
    if hasattr(d, '_linked_list_length') and d._linked_list_length() != len(model):
        comp.fail(sim, 'leak', 'the list holds %d nodes for %d entries'
                  % (d._linked_list_length(), len(model)))
