'''The simulator core: one seeded source of every scheduling, timing and fault decision.

A `Sim` object lives in one process (one incarnation of a command, or one component scenario) and
owns the clock, the scheduler's random choices, worker threads, the event log and the crash points.
'''

import builtins
import collections
import errno
import hashlib
import io
import os
import random
import shutil
import signal
import sys
import threading
import time as _time
import traceback
import types

import trio
import trio.testing
from trio._core import _run as _trio_run

REAL_TIME = {k: getattr(_time, k) for k in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'sleep', 'perf_counter', 'gmtime')}
real_monotonic = _time.monotonic
real_trio_run = trio.run
real_open = builtins.open
real_urandom = os.urandom
real_listdir = os.listdir
real_to_thread = trio.to_thread.run_sync
real_remove = os.remove


def stream(*parts):
    '''Return an independent PRNG for the given names'''
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class Violation(Exception):
    def __init__(self, cls, msg, **info):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.info = info

    def as_dict(self):
        return {'cls': self.cls, 'msg': self.msg, **({'info': self.info} if self.info else {})}


class _SchedRandom:
    '''Replacement for trio's batch-ordering PRNG'''

    def __init__(self, sim):
        self.sim = sim
        self.rng = stream(sim.seed, 'sched')
        self.n = 0
        self.prio = {}

    def random(self):
        return self.rng.random()

    def shuffle(self, batch):
        sim = self.sim
        sim.steps += len(batch)
        if sim.steps > sim.max_steps:
            sim.abort(Violation('livelock', 'no end after %d task steps' % sim.steps))
        if len(batch) < 2:
            return
        self.n += 1
        if sim.sched_limit is not None and self.n > sim.sched_limit:
            batch.reverse()
            return
        pol = sim.sched_policy
        if pol == 'fifo':
            batch.reverse()
        elif pol == 'lifo':
            pass
        elif pol == 'pct':
            rng = self.rng
            if rng.random() < 0.02:
                self.prio.clear()
            for t in batch:
                if t._counter not in self.prio:
                    self.prio[t._counter] = rng.random()
            batch.sort(key=lambda t: self.prio[t._counter])
        else:
            self.rng.shuffle(batch)
        sim._mix('s', [t._counter - sim._task0 for t in batch])


class SimFileIO(io.FileIO):
    '''A file in the simulated cache directory: writes may be short or fail'''

    _sim = None
    _path = ''
    _direct = False  # not below a buffer: other tasks may run before and after each access

    def write(self, data):
        sim = self._sim
        if sim is not None:
            if self._direct:
                sim.thread_yield()
            sim.ev('fwrite', os.path.basename(self._path), len(data))
            limit = sim.disk_write_fault(self._path, len(data))
            if limit is not None:
                if limit < 0:
                    raise OSError(-limit, os.strerror(-limit))
                return super().write(memoryview(data)[:limit])
        return super().write(data)

    def read(self, size=-1):
        if self._direct:
            self._sim.thread_yield()
        return super().read(size)

    def truncate(self, size=None):
        if self._sim is not None:
            self._sim.ev('ftrunc', os.path.basename(self._path), size)
        return super().truncate(size)


class _Yielding:
    '''Other tasks may run before and after each access from a worker thread'''

    _sim = None

    def read(self, *a):
        self._sim.thread_yield()
        return super().read(*a)

    def write(self, data):
        self._sim.thread_yield()
        return super().write(data)


class _YieldRandom(_Yielding, io.BufferedRandom):
    pass


class _YieldWriter(_Yielding, io.BufferedWriter):
    pass


class _YieldReader(_Yielding, io.BufferedReader):
    pass


class Sim:
    def __init__(
        self,
        seed,
        base_time=1_700_000_000.0,
        sched_policy='shuffle',
        sched_limit=None,
        thread_delay=(0.0,),
        clock_stall=0.0,
        max_steps=3_000_000,
        max_idle_time=30 * 86400.0,
        crash_points=(),
        on_crash=None,
        src=None,
        record=False,
    ):
        self.seed = seed
        self.base_time = base_time
        self.skew = 0.0
        self.tick = 0.0
        self.sched_policy = sched_policy
        self.sched_limit = sched_limit
        self.thread_delay = tuple(thread_delay)
        self.clock_stall = clock_stall
        self.max_steps = max_steps
        self.max_idle_time = max_idle_time
        self.steps = 0
        self.events = 0
        self.run_base = 0.0  # sim time at which the current trio.run started
        self.clock = None
        self.hash = hashlib.blake2b(digest_size=12)
        self.tail = collections.deque(maxlen=300)
        self.record = [] if record else None
        self.counts = collections.Counter()
        self.rng_thread = stream(seed, 'thread')
        self.rng_clock = stream(seed, 'clock')
        self.rng_misc = stream(seed, 'misc')
        self.rng_ent = stream(seed, 'entropy')
        self.sched = _SchedRandom(self)
        self._task0 = 0
        self.crash_points = collections.defaultdict(list)
        for kind, nth, lines in crash_points:
            self.crash_points[kind, nth].append(lines)
        self.on_crash = on_crash
        self._armed = []
        self.src = src
        self.lines_hit = 0
        self.abort_hook = None
        self.on_put = None
        self.on_unlink = None
        self.disk_faults = {}
        self.disk_writes = 0
        self.watch_dir = None
        self.thread_yields = False
        self.in_tool = False  # a program on the mounted file system has the processor
        self._thread = threading.local()
        self.idle_hook = None
        self.busy = 0  # storage requests and worker threads in progress
        self.last_fault = None  # when a storage request last failed
        self.program_wait = False  # the program itself is waited for, not just a request to it
        self.faults_fired = collections.Counter()
        self.switches = 0

    # ---------------------------------------------------------------- events and log

    def _mix(self, *a):
        self.hash.update(repr(a).encode())
        if self.record is not None:
            self.record.append(repr(a))

    def ev(self, kind, *detail):
        '''One numbered simulator event; crash points refer to these numbers'''
        self.events += 1
        self.counts[kind] += 1
        rec = (self.events, round(self.elapsed(), 6), kind, *detail)
        self.tail.append(rec)
        self._mix(*rec)
        if self.crash_points:
            for where in (('*', self.events), (kind, self.counts[kind])):
                for lines in self.crash_points.pop(where, ()):
                    if lines == 0:
                        self.on_crash(self.events, 0)
                    else:
                        self._arm(self.events, lines)

    def fired(self, what, n=1):
        self.faults_fired[what] += n

    def digest(self):
        return self.hash.hexdigest()

    def abort(self, viol):
        '''Stop this process because of a violation'''
        if self.abort_hook is not None:
            self.abort_hook(viol)
        raise viol

    # ---------------------------------------------------------------- crash at an s3ql source line

    def _arm(self, ev, lines):
        mon = sys.monitoring
        if not self._armed:
            if mon.get_tool(3) is None:
                mon.use_tool_id(3, 'dst')
                mon.register_callback(3, mon.events.LINE, self._line)
            mon.set_events(3, mon.events.LINE)
        self._armed.append([lines, ev, lines])

    def _line(self, code, line):
        if not code.co_filename.startswith(self.src):
            return sys.monitoring.DISABLE
        if self.in_tool:
            return None
        done = False
        self.lines_hit += 1
        for a in self._armed:
            a[0] -= 1
            if a[0] <= 0:
                done = True
        if done:
            fire = [a for a in self._armed if a[0] <= 0]
            self._armed = [a for a in self._armed if a[0] > 0]
            if not self._armed:
                sys.monitoring.set_events(3, 0)
            for a in fire:
                self.on_crash(a[1], a[2])
        return None

    # ---------------------------------------------------------------- time

    def elapsed(self):
        if self.clock is not None:
            return self.run_base + self.clock.current_time()
        return self.run_base

    def mono(self):
        return self.elapsed() + self.tick

    def _advance(self):
        self.tick += 1e-6
        if self.clock_stall and self.rng_clock.random() < self.clock_stall:
            # the machine was busy elsewhere between two statements
            self.tick += self.rng_clock.choice((0.01, 0.06, 0.2))
            self.fired('cpu-stall')

    def time(self):
        self._advance()
        return self.base_time + self.elapsed() + self.tick + self.skew

    def time_ns(self):
        return int(self.time() * 1e6) * 1000

    def monotonic(self):
        self._advance()
        return 1000.0 + self.elapsed() + self.tick

    def peek_time(self):
        return self.base_time + self.elapsed() + self.tick + self.skew

    def peek_ns(self):
        return int(self.peek_time() * 1e6) * 1000

    # ---------------------------------------------------------------- trio

    def trio_run(self, async_fn, *args, **kw):
        clock = trio.testing.MockClock(rate=0, autojump_threshold=0)
        clock._real_clock = lambda: 0.0
        clock._real_base = 0.0
        self.clock = clock
        sim = self

        async def main():
            sim._task0 = trio.lowlevel.current_task()._counter
            sim.default_limiter = trio.CapacityLimiter(40)
            return await async_fn(*args)

        try:
            return real_trio_run(main, clock=clock)
        finally:
            self.run_base += clock.current_time()
            self.clock = None

    def _autojump(self, clock):
        jump = trio.lowlevel.current_statistics().seconds_to_next_deadline
        if jump == float('inf'):
            self.abort(Violation('deadlock', 'all tasks are blocked for ever' + self.task_report()))
        if jump > 0:
            if self.elapsed() > self.max_idle_time:
                self.abort(
                    Violation('no-progress', 'simulated time limit reached' + self.task_report())
                )
            if self.idle_hook is not None:
                self.idle_hook()
            clock.jump(jump)

    def task_report(self):
        out = []
        try:
            root = trio.lowlevel.current_root_task()
            todo = [root]
            while todo:
                t = todo.pop()
                frames = []
                coro = t.coro
                while coro is not None and hasattr(coro, 'cr_frame'):
                    if coro.cr_frame is not None:
                        frames.append('%s:%s' % (coro.cr_code.co_name, coro.cr_frame.f_lineno))
                    coro = coro.cr_await
                if 's3ql' in repr(t.coro) or frames:
                    out.append(' < '.join(frames[-9:]))
                for n in t.child_nurseries:
                    todo.extend(sorted(n.child_tasks, key=lambda x: x._counter))
        except Exception as exc:  # noqa: BLE001
            out.append(repr(exc))
        return ''.join('\n    task: ' + o for o in out[:40])

    async def pause(self, rng, choices):
        d = rng.choice(choices)
        if d > 0:
            await trio.sleep(d)
        else:
            await trio.lowlevel.checkpoint()

    async def run_in_thread(
        self, fn, *args, thread_name=None, abandon_on_cancel=False, cancellable=None, limiter=None
    ):
        await trio.lowlevel.checkpoint_if_cancelled()
        limiter = limiter or self.default_limiter
        token = object()
        await limiter.acquire_on_behalf_of(token)
        self.busy += 1
        try:
            with trio.CancelScope(shield=True):
                await self.pause(self.rng_thread, self.thread_delay)
                self.ev('thread')
                exc = None
                try:
                    if self.thread_yields:
                        res = await self._stepwise(fn, args)
                    else:
                        res = fn(*args)
                except BaseException as e:  # noqa: BLE001
                    exc = e
                await self.pause(self.rng_thread, self.thread_delay)
                if exc is not None:
                    raise exc
                return res
        finally:
            self.busy -= 1
            limiter.release_on_behalf_of(token)

    async def _stepwise(self, fn, args):
        '''Run *fn* in a thread that hands control back at each access to a file'''
        st = types.SimpleNamespace(go=threading.Semaphore(0), back=threading.Semaphore(0), out=None)

        def target():
            st.go.acquire()
            self._thread.st = st
            try:
                st.out = (fn(*args), None)
            except BaseException as e:  # noqa: BLE001
                st.out = (None, e)
            st.back.release()

        t = threading.Thread(target=target, daemon=True)
        t.start()
        while True:
            st.go.release()
            st.back.acquire()
            if st.out is not None:
                break
            self.ev('thread-yield')
            await self.pause(self.rng_thread, self.thread_delay)
        t.join()
        res, exc = st.out
        if exc is not None:
            raise exc
        return res

    def thread_yield(self):
        '''Called in a worker thread: let other tasks run'''
        st = getattr(self._thread, 'st', None)
        if st is not None:
            st.back.release()
            st.go.acquire()

    # ---------------------------------------------------------------- disk

    def disk_write_fault(self, path, n):
        '''None: full write; k >= 0: short write of k bytes; < 0: -errno'''
        self.disk_writes += 1
        f = self.disk_faults.get(self.disk_writes)
        if f is None:
            return None
        self.fired('disk-' + f['kind'])
        if f['kind'] == 'short':
            return max(0, min(n - 1, int(n * f.get('frac', 0.5))))
        return -getattr(errno, f['kind'].upper())

    def sim_open(self, file, mode='r', buffering=-1, *a, **kw):
        wd = self.watch_dir
        if wd is not None and isinstance(file, (str, bytes)):
            p = os.fsdecode(file)
            if p == '/dev/urandom':
                return io.BytesIO(self.rng_ent.randbytes(4096))
            if p.startswith(wd) and 'b' in mode and any(c in mode for c in 'wxa+'):
                raw = SimFileIO(file, mode.replace('b', '').replace('U', ''))
                raw._sim = self
                raw._path = p
                self.ev('fopen', os.path.basename(p), mode)
                if buffering == 0:
                    raw._direct = self.thread_yields
                    return raw
                if self.thread_yields:
                    res = (_YieldRandom if '+' in mode else _YieldWriter)(raw)
                    res._sim = self
                    return res
                if '+' in mode:
                    return io.BufferedRandom(raw)
                return io.BufferedWriter(raw)
            if p.startswith(wd) and self.thread_yields and mode == 'rb':
                if buffering == 0:
                    raw = SimFileIO(file, 'r')
                    raw._sim = self
                    raw._path = p
                    raw._direct = True
                    return raw
                res = _YieldReader(io.FileIO(file, 'r'))
                res._sim = self
                return res
        elif file == '/dev/urandom':
            return io.BytesIO(self.rng_ent.randbytes(4096))
        return real_open(file, mode, buffering, *a, **kw)

    # ---------------------------------------------------------------- patching

    def install(self):
        '''Route every source of nondeterminism through this object'''
        import logging


        _trio_run._ALLOW_DETERMINISTIC_SCHEDULING = True
        _trio_run._r = self.sched
        sim = self
        trio.testing.MockClock._autojump = lambda clock: sim._autojump(clock)
        trio.run = self.trio_run
        trio.to_thread.run_sync = self.run_in_thread
        # the logging module must not consume simulated time
        frozen = types.SimpleNamespace(
            **{k: getattr(_time, k) for k in dir(_time) if not k.startswith('__')}
        )
        frozen.time = lambda: self.base_time
        frozen.time_ns = lambda: int(self.base_time * 1e9)
        logging.time = frozen
        _time.time = self.time
        _time.time_ns = self.time_ns
        _time.monotonic = self.monotonic
        _time.monotonic_ns = lambda: int(self.monotonic() * 1e9)
        _time.perf_counter = self.monotonic
        self._real_gmtime = _time.gmtime
        _time.gmtime = lambda s=None: self._real_gmtime(self.time() if s is None else s)
        _time.sleep = self._no_sleep
        random.seed(int.from_bytes(hashlib.sha256(b'g%d' % hash_seed(self.seed)).digest()[:8], 'big'))
        os.urandom = lambda n: self.rng_ent.randbytes(n)
        builtins.open = self.sim_open
        os.listdir = self._listdir
        self._real_unlink = os.unlink
        self._real_rename = os.rename
        os.unlink = os.remove = self._unlink
        os.rename = self._rename
        self._real_replace = os.replace
        os.replace = self._replace
        self._real_fsync = os.fsync
        os.fsync = self._fsync
        self._rebind()

    def _rebind(self):
        '''Names that s3ql modules have imported from the patched modules'''
        swap = {}
        for fn, new in (
            *((fn, getattr(_time, k)) for k, fn in REAL_TIME.items()),
            (real_urandom, os.urandom), (real_listdir, os.listdir), (real_open, builtins.open),
            (self._real_unlink, os.unlink), (real_remove, os.unlink),
            (self._real_rename, os.rename), (self._real_replace, os.replace),
            (self._real_fsync, os.fsync), (real_trio_run, trio.run),
            (real_to_thread, trio.to_thread.run_sync),
        ):
            swap[id(fn)] = new
        for name, mod in list(sys.modules.items()):
            if name.startswith('s3ql'):
                for k, v in list(vars(mod).items()):
                    if callable(v) and id(v) in swap:
                        setattr(mod, k, swap[id(v)])

    def _no_sleep(self, secs):
        self.tick += secs

    def _listdir(self, *a, **kw):
        names = sorted(real_listdir(*a, **kw))
        if len(names) > 1:
            self.rng_misc.shuffle(names)
        return names

    def _watched(self, p):
        return (
            self.watch_dir is not None
            and isinstance(p, (str, bytes))
            and os.fsdecode(p).startswith(self.watch_dir)
        )

    def _unlink(self, path, **kw):
        if self._watched(path):
            if self.on_unlink is not None:
                self.on_unlink(os.fsdecode(path))
            self.ev('unlink', os.path.basename(os.fsdecode(path)))
        return self._real_unlink(path, **kw)

    def _rename(self, a, b, **kw):
        if self._watched(a):
            self.ev('rename', os.path.basename(os.fsdecode(b)))
        return self._real_rename(a, b, **kw)

    def _replace(self, a, b, **kw):
        if self._watched(a):
            self.ev('rename', os.path.basename(os.fsdecode(b)))
        return self._real_replace(a, b, **kw)

    def _fsync(self, fd):
        if self.watch_dir is not None:
            self.ev('fsync')
            f = self.disk_faults.get('fsync')
            if f is not None:
                f['n'] = f.get('n', 0) + 1
                if f['n'] == f['at']:
                    self.fired('disk-fsync')
                    raise OSError(errno.EIO, 'simulated fsync failure')
        return None


def hash_seed(s):
    return int.from_bytes(hashlib.sha256(str(s).encode()).digest()[:6], 'big')
