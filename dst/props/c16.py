'''C16: no operation hangs; flush, eviction, background work and unmount always finish.'''

import struct

import trio

from .. import gen as G
from .. import scen, tree
from ..core import Violation
from ..world import hook, khook

PROP = 'C16'
RUNS = {'quick': 260, 'thorough': 10000}
RULE = ('One run: clients work over a tiny cache and slow storage through outages of seconds to many '
        'hours (errors, lost answers, connections that hang; all requests or only some kinds). While a '
        'file system request, a control command, the unmount or a whole command (fsck.s3ql, '
        's3ql_verify, s3qladm) is waited for, simulated time may pass only as long as a storage request '
        'or worker thread is in progress or a failed request is waiting to be repeated; time that '
        'passes while nothing is going on is added up and limited, and so is the total. At rest all dirty blocks must be '
        'stored, all unused objects removed and metadata backed up in the documented time without any '
        'request. Blocks are uploaded no more often than they were written. Deadlocks (no task can '
        'ever run) and endless loops are reported by the simulator itself.')
NOTE = ('Seeded search over schedules and outages; liveness is judged as bounded progress: at most %d s '
        'of idle waiting per request. Outages are shorter than the 24 h after which requests are given '
        'up as documented.')

PAUSE = 451.0  # longest pause between two attempts (documented: 5 minutes plus up to half of it)
IDLE = 12.0  # longest time a request may wait with nothing going on
NOTE = NOTE % IDLE
DAY = 86400.0

OPS = [('write', 14), ('read', 8), ('create', 3), ('truncate', 3.5), ('open', 2), ('close', 2),
       ('fsync', 1.5), ('unlink', 2.5), ('rename', 1), ('link', 0.5), ('stat', 1), ('flush', 2),
       ('drop', 2), ('cachesize', 0.8), ('sleep', 2.5), ('prune', 0.5), ('upload_meta', 1),
       ('mkdir', 0.5), ('rmdir', 0.4), ('setxattr', 0.4), ('extstat', 0.4)]


def outages(rng, n=None):
    out = []
    t = 0.0
    for _ in range(rng.choice((0, 1, 1, 2, 3)) if n is None else n):
        t += rng.choice((0.0, 1.0, 7.0, 30.0, 120.0)) + rng.random()
        secs = rng.choice((0.5, 5.0, 40.0, 200.0, 1500.0, 20000.0, 70000.0))
        o = {'at': t, 'secs': secs, 'kinds': rng.choice((['temp'], ['stall'], ['lost', 'temp'],
                                                        ['temp', 'lost', 'stall']))}
        if rng.random() < 0.4:
            o['only'] = rng.choice((['put'], ['get'], ['delete'], ['put', 'delete'], ['list', 'get']))
        if rng.random() < 0.3:
            o['rate'] = rng.choice((0.3, 0.8))
        out.append(o)
        t += secs + PAUSE + 10
    return out


def gen(rng, idx, tier):
    g = G.OpGen(rng, files=rng.choice((2, 3, 4)), dirs=rng.choice(([], ['d0'], ['d0', 'd1'])),
                tags=rng.choice((1, 2, 5, 30)), blocks=rng.choice((2, 4, 8)))
    c = G.cfg(rng, entries=rng.choice((1, 2, 3, 5, 30)), cachesize=rng.choice((1, 2, 4, 16)),
              delay=rng.choice((0, 1, 10, 60)), backup=rng.choice((2, 10, 60, 3600, 0)),
              conns=rng.choice((1, 1, 2, 4)), threads=rng.choice((1, 1, 2, 4)))
    return {
        'cfg': c,
        'setup': G.setup_ops(rng, g, 0.8, 0.6),
        'clients': G.clients(rng, g, OPS, n=rng.choice((1, 2, 4, 8)), length=rng.choice((10, 25, 60))),
        'faults': {'outages': outages(rng)},
        'rest': rng.random() < 0.6,
        'tools': rng.choice(([], [], ['fsck'], ['verify'], ['passphrase'], ['upload-meta'], ['fsck', 'verify'])),
        'tfaults': {'outages': outages(rng, 1)},
    }


# ---------------------------------------------------------------------- measuring


class Meter:
    def __init__(self, run, sim, spec):
        self.sim = sim
        self.k = None
        self.ops = {}  # number of a request -> idle time
        self.prog = 0.0
        self.rest = None  # idle time since the clients came to rest
        self.outages = spec['faults'].get('outages', ())
        self.maxlat = 2 * max(sim.backend_latency) + 2 * max(sim.thread_delay)
        if spec['cmd'] != 'mount':
            sim.program_wait = True
        self.base = sim.elapsed()
        sim.meter = self
        sim.idle_hook = self.jump

    def bad(self, cls, msg):
        self.sim.abort(Violation(cls, msg + self.sim.task_report()))

    def jump(self):
        sim = self.sim
        now = sim.elapsed()
        end = now + trio.lowlevel.current_statistics().seconds_to_next_deadline
        if not sim.busy:
            start = now
            if sim.last_fault is not None:
                start = max(start, sim.last_fault + PAUSE)
            if end > start:
                self.idle(end - start)
        # the total: even with something going on all the time
        if self.k is not None:
            for n, (name, t0) in self.k.pending_ops.items():
                if end > self.limit(t0):
                    self.bad('hang', '%s takes %d s, with no outage in the last %d s'
                             % (name, end - t0, end - self.clear(t0)))

    def clear(self, t0):
        '''When the last outage after *t0* was over, including all requests caught in it'''
        for o in self.outages:
            if o['at'] + o['secs'] + PAUSE + 60 >= t0 and o['at'] <= self.sim.elapsed():
                t0 = max(t0, o['at'] + o['secs'] + PAUSE + 60)
        return t0

    def limit(self, t0):
        # every block of the cache, metadata backups and deletions may come first
        return self.clear(t0) + 100 + 300 * self.maxlat

    def idle(self, secs):
        sim = self.sim
        if self.k is not None:
            for n, (name, t0) in self.k.pending_ops.items():
                t = self.ops[n] = self.ops.get(n, 0.0) + secs
                if t >= 4 > t - secs:
                    sim.probes['idle 4 s or more'] = sim.probes.get('idle 4 s or more', 0) + 1
                if t > IDLE:
                    self.bad('hang', '%s has waited %d s while nothing was going on' % (name, t))
        if sim.program_wait:
            self.prog += secs
            if self.prog > IDLE:
                self.bad('hang', 'the program has waited %d s while nothing was going on' % self.prog)
        if self.rest is not None:
            self.rest += secs


@hook
def c16(run, sim, spec):
    Meter(run, sim, spec)


@khook
def c16_start(k):
    k.sim.meter.k = k


@khook
def c16_call(k, name, args, err):
    k.sim.meter.ops = {n: t for n, t in k.sim.meter.ops.items() if n in k.pending_ops}


@khook
async def c16_rest(k):
    '''Everything is closed and nobody asks for anything: what must happen by itself?'''
    m, sim, run = k.sim.meter, k.sim, k.run_obj
    store = run.store
    for o in m.outages:
        left = o['at'] + o['secs'] + PAUSE + 60 - sim.elapsed()
        if left > 0 and o['at'] <= sim.elapsed():
            await trio.sleep(left)
    # dirty blocks are stored after the documented delay, unused objects are removed
    m.rest = 0.0
    t0 = sim.elapsed()
    delay = run.cfg['delay']
    while True:
        v = struct.unpack('QQQQQQQQQQQQ', k.ops.extstat())
        if v[9] == 0 and v[1] == len(store.data_ids()):
            break
        if m.rest > delay + IDLE + 5 or sim.elapsed() > m.limit(t0) + delay:
            m.bad('background', 'at rest for %d s, yet %d blocks are dirty, %d objects recorded, %d '
                  'stored (upload delay %d s)' % (sim.elapsed() - t0, v[9], v[1],
                                                 len(store.data_ids()), delay))
        await trio.sleep(1.0)
    # metadata is backed up
    interval = run.cfg['backup']
    if interval:
        n = store.put_count['s3ql_params']
        t0 = sim.elapsed()
        while store.put_count['s3ql_params'] == n:
            if sim.elapsed() > m.limit(t0) + interval:
                m.bad('background', 'no metadata backup in %d s (interval %d s)'
                      % (sim.elapsed() - t0, interval))
            await trio.sleep(1.0)
    n = store.put_count['s3ql_params']
    await k.ctrl(b'upload-meta')
    t0 = sim.elapsed()
    while store.put_count['s3ql_params'] == n:
        if sim.elapsed() > m.limit(t0):
            m.bad('background', 'no metadata backup %d s after it was asked for' % (sim.elapsed() - t0))
        await trio.sleep(1.0)
    m.rest = None
    sim.probes['came to rest'] = sim.probes.get('came to rest', 0) + 1


def touched(clients, block=1024):
    n = 0
    for ops in clients:
        for op in ops:
            if op['op'] == 'write':
                n += op['len'] // block + 2
            elif op['op'] == 'truncate':
                n += 1
    return n


def execute(plan, holder):
    run = scen.start(plan, holder)
    try:
        scen.work(run, [plan['setup']], 'setup', lat=[0.0])
        kcfg = {'at_start': 'c16_start', 'after_call': 'c16_call'}
        if plan['rest']:
            kcfg['at_end'] = 'c16_rest'
        puts = sum(n for k, n in run.store.put_count.items() if k.startswith('s3ql_data_'))
        res = run.mount(plan['clients'], faults=plan['faults'], salt='work', hooks='c16', kcfg=kcfg)
        scen.expect_rc(res, 'mount')
        lost = sum(1 for f in res.fault_log if f[1]['kind'] == 'lost' and f[2] == 'put')
        puts = sum(n for k, n in run.store.put_count.items() if k.startswith('s3ql_data_')) - puts
        if puts - lost > touched(plan['clients']):
            raise Violation('busy', '%d blocks uploaded, at most %d were written'
                            % (puts - lost, touched(plan['clients'])))
        for t in plan['tools']:
            tool(run, t, plan)
        r = run.mount([], dump=True, lat=[0.0], salt='read')
        scen.expect_rc(r, 'mount')
        tree.compare_exact(run.model, r.dump, 'read-back')
        return run.stats
    finally:
        run.close()


def tool(run, t, plan):
    kw = {'faults': plan['tfaults'], 'hooks': 'c16', 'salt': t}
    if t == 'fsck':
        r = run.fsck(extra=('--batch', '--force'), **kw)
    elif t == 'verify':
        r = run.verify(extra=('--data', '--cachedir', run.cachedir(), '--missing-file',
                              run.dir + '/vm', '--corrupted-file', run.dir + '/vc'), **kw)
    elif t == 'passphrase':
        if run.cfg['plain']:
            return
        r = run.adm('passphrase', stdin='%s\n%s\n%s\n' % (run.passphrase, 'new', 'new'), **kw)
    elif t == 'upload-meta':
        return
    scen.expect_rc(r, t)
