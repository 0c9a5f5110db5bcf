'''Running the real commands as incarnations over a simulated storage service and a cache directory.

`Run` owns the world of one simulated execution: the storage service, the reference model, the cache
directories of the machines, and the wall clock.  Every command (mkfs, mount, fsck, adm, verify) is
the real `main(args)` executed in a forked child under a `Sim`.  A crash is a snapshot of what would
survive at that instant (cache directory, storage service, model with requests in flight); the
child goes on, and each snapshot is recovered afterwards as a world of its own.
'''

import atexit
import copy
import errno
import gc
import importlib.util
import io
import os
import pickle
import resource
import shutil
import signal
import stat
import sys
import tempfile
import time as _time
import traceback

import trio

from . import boot, core, store as store_mod
from .core import Sim, Violation, stream
from .model import Model, MInode

URL = 'sim://bucket/fs'
PASS = 'correct horse'
FSIZE_LIMIT = 200 << 20  # nothing here needs large files
CPU_LIMIT = 90  # seconds of CPU time of one incarnation before it counts as hung
WALL_LIMIT = 600

_cur_sim = None
_cur_store = None
SRC = None


def init(src):
    '''Import everything once, before any incarnation is forked'''
    global SRC
    SRC = os.path.join(src, 's3ql')
    import s3ql.adm  # noqa: F401
    import s3ql.fsck  # noqa: F401
    import s3ql.mkfs  # noqa: F401
    import s3ql.mount  # noqa: F401
    import s3ql.verify  # noqa: F401
    from s3ql.backends import async_prefix_map

    async_prefix_map['sim'] = store_mod.make_backend_class(lambda: _cur_sim, lambda: _cur_store)
    gc.collect()
    gc.freeze()


def scratch_root():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (1 << 30) and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return '/tmp'


class HarnessError(Exception):
    pass


class Result:
    rc = None
    exc = None  # text of an unexpected exception
    exc_type = None
    out = ''
    err = ''
    violation = None
    signaled = None

    def ok(self):
        return self.rc == 0


DEFAULT_CFG = {
    'plain': False,
    'block': 1,  # KiB
    'mdblock': 4,  # KiB
    'compress': 'zlib-1',
    'cachesize': 16,  # KiB
    'entries': 8,
    'delay': 10,
    'backup': 3600,
    'conns': 3,
    'threads': 2,
    'keep_cache': False,
    'lat': [0.0, 0.01, 0.2],
    'thread_delay': [0.0, 0.0, 0.005],
    'think': [0.0, 0.0, 0.1, 3.0],
    'forget_delay': [0.0, 0.05, 2.0],
    'page': 7,
    'policy': 'shuffle',
    'stall': 0.0,
    'icache': 100,
    'writeback': False,
    'uid': 1000,
}


class Run:
    def __init__(self, plan, keep=False):
        self.plan = plan
        self.seed = plan['seed']
        self.cfg = {**DEFAULT_CFG, **plan.get('cfg', {})}
        self.dir = tempfile.mkdtemp(prefix='dst-run-', dir=scratch_root())
        self.keep = keep
        self.n = 0
        self.store = store_mod.SimStore()
        self.model = None
        self.now = 1_700_000_000.0
        self.skew = 0.0  # how far the clock of the machine in use is off
        self.machine = 'm0'
        self.stats = {
            'incs': 0, 'events': 0, 'simtime': 0.0, 'fired': {}, 'digests': [], 'cmds': {},
            'snaps': 0, 'probes': {}, 'ops': 0, 'steps': 0,
        }
        self.fault_logs = {}
        self.passphrase = PASS
        self.master_key = None
        self.write_auth()

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def write_auth(self):
        path = os.path.join(self.dir, 'auth')
        with open(path, 'w') as fh:
            fh.write('[x]\nstorage-url: sim://\nfs-passphrase: %s\n' % self.passphrase)
            fh.write('max-connections: %d\nmax-threads: %d\n'
                     % (self.cfg['conns'], self.cfg['threads']))
        os.chmod(path, 0o600)

    def cachedir(self, machine=None):
        d = os.path.join(self.dir, 'cache-' + (machine or self.machine))
        if not os.path.isdir(d):
            os.mkdir(d, 0o700)
        return d

    # -- saving and switching worlds

    def save(self):
        return (self.store.clone(), copy.deepcopy(self.model), self.now, self.machine)

    def load(self, w):
        self.store, self.model, self.now, self.machine = w
        self.store = self.store.clone()
        self.model = copy.deepcopy(self.model)

    def enter_snapshot(self, snap):
        '''Make the state at a crash the current world'''
        with open(snap['file'], 'rb') as fh:
            w = pickle.load(fh)
        self.store, self.model, self.now = w['store'], w['model'], w['now']
        self.machine = 's%d' % snap['id']
        dst = os.path.join(self.dir, 'cache-' + self.machine)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(snap['dir'], dst)
        return w

    # -- arguments

    def common_args(self):
        return ['--cachedir', self.cachedir(), '--authfile', os.path.join(self.dir, 'auth')]

    def mkfs(self, extra=(), **kw):
        c = self.cfg
        args = [
            *self.common_args(),
            '--data-block-size', str(c['block']), '--metadata-block-size', str(c['mdblock']),
            '--max-connections', str(c['conns']), '--max-threads', str(c['threads']),
            *(['--plain'] if c['plain'] else []), *extra, URL,
        ]
        res = self.inc('mkfs', args, stdin=self.passphrase + '\n', **kw)
        if not c['plain'] and res.rc == 0:
            t = res.out.split('---BEGIN MASTER KEY---')[1].split('---END')[0]
            self.master_key = ' '.join(t.split())
        return res

    def mount(self, clients, extra=(), **kw):
        c = self.cfg
        mnt = os.path.join(self.dir, 'mnt')
        os.makedirs(mnt, exist_ok=True)
        args = [
            *self.common_args(), '--fg', '--log', 'none', '--compress', c['compress'],
            '--cachesize', str(c['cachesize']), '--max-cache-entries', str(c['entries']),
            '--dirty-block-upload-delay', str(c['delay']),
            '--metadata-backup-interval', str(c['backup']),
            '--max-connections', str(c['conns']), '--max-threads', str(c['threads']),
            *(['--keep-cache'] if c['keep_cache'] else []), *extra, URL, mnt,
        ]
        return self.inc('mount', args, clients=clients, **kw)

    def fsck(self, extra=('--batch',), **kw):
        c = self.cfg
        args = [
            *self.common_args(), '--log', 'none', '--max-connections', str(c['conns']),
            '--max-threads', str(c['threads']), *extra, URL,
        ]
        return self.inc('fsck', args, **kw)

    def adm(self, action, extra=(), **kw):
        args = [*self.common_args(), action, *extra, URL]
        return self.inc('adm', args, **kw)

    def verify(self, extra=(), **kw):
        args = ['--authfile', os.path.join(self.dir, 'auth'), *extra, URL]
        return self.inc('verify', args, **kw)

    def contrib(self, name, args, **kw):
        '''One of the programs below contrib/'''

        def func(run, sim, spec, d):
            path = os.path.join(boot.REPO, 'contrib', name + '.py')
            sim.src = (sim.src, path) if isinstance(sim.src, str) else sim.src
            spec = importlib.util.spec_from_file_location(name, path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules[name] = mod
            spec.loader.exec_module(mod)
            sys.argv = [name + '.py', *args]
            mod.main(list(args))

        return self.inc(name, args, func=func, **kw)

    # -- one incarnation

    def inc(self, cmd, args, stdin='', clients=None, faults=None, crash=(), disk=None, end=None,
            salt=None, kcfg=None, dump=False, lat=None, allow_exc=False, func=None, hooks=None,
            policy=None, sched_limit=None, expect_violation=False, machine_only_snap=False,
            record=False, died=False):
        self.n += 1
        spec = {
            'cmd': cmd, 'args': args, 'clients': clients, 'faults': faults or {}, 'crash': crash,
            'disk': disk or {}, 'end': end, 'kcfg': kcfg or {}, 'dump': dump, 'lat': lat,
            'salt': salt if salt is not None else '%d-%s' % (self.n, cmd), 'id': self.n,
            'func': func, 'hooks': hooks, 'policy': policy, 'sched_limit': sched_limit,
            'record': record, 'died': died,
        }
        outdir = os.path.join(self.dir, 'inc%d' % self.n)
        os.mkdir(outdir)
        with open(os.path.join(outdir, 'in'), 'w') as fh:
            fh.write(stdin)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _child(self, spec, outdir)
            except BaseException:  # noqa: BLE001
                try:
                    with core.real_open(os.path.join(outdir, 'harness'), 'w') as fh:
                        traceback.print_exc(file=fh)
                finally:
                    os._exit(98)
            os._exit(97)
        status = self._wait(pid)
        res = self._collect(spec, outdir, status)
        if not self.keep:
            for f in os.listdir(outdir):
                if not f.startswith('snap'):
                    p = os.path.join(outdir, f)
                    if os.path.isfile(p):
                        os.unlink(p)
        if res.violation and not expect_violation:
            v = res.violation
            raise Violation(v['cls'], '%s: %s' % (cmd, v['msg']), **v.get('info', {}))
        if res.exc and not allow_exc:
            raise Violation('crash', '%s ended with an unhandled %s' % (cmd, res.exc_type),
                            traceback=res.exc[-3000:], stderr=res.err.split('Traceback')[0][-1500:])
        return res

    def _wait(self, pid):
        t0 = core.real_monotonic()
        delay = 0.0005
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                return status
            if core.real_monotonic() - t0 > WALL_LIMIT:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise HarnessError('wall clock limit of one incarnation exceeded')
            _time.sleep(delay)
            delay = min(0.01, delay * 1.5)

    def _collect(self, spec, outdir, status):
        res = Result()
        st = self.stats
        st['incs'] += 1
        st['cmds'][spec['cmd']] = st['cmds'].get(spec['cmd'], 0) + 1
        path = os.path.join(outdir, 'result')

        def text(n):
            with open(os.path.join(outdir, n), errors='replace') as fh:
                return fh.read()

        res.out, res.err = text('out'), text('err')
        if not os.path.exists(path):
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
                    raise Violation('crash', '%s was killed by signal %d' % (spec['cmd'], sig),
                                    stderr=res.err[-2000:])
                if sig in (signal.SIGPROF, signal.SIGXCPU):
                    raise Violation('hang', '%s used more than %d s of CPU time'
                                    % (spec['cmd'], CPU_LIMIT), stderr=res.err[-2000:])
                raise HarnessError('incarnation killed by signal %d' % sig)
            msg = ''
            if os.path.exists(os.path.join(outdir, 'harness')):
                msg = text('harness')
            raise HarnessError('incarnation gave no result (status %s)\n%s\n%s'
                               % (status, msg[-4000:], res.err[-2000:]))
        with open(path, 'rb') as fh:
            d = pickle.load(fh)
        for k in ('rc', 'exc', 'exc_type', 'violation'):
            setattr(res, k, d[k])
        res.d = d
        res.snaps = d['snaps']
        res.dump = d.get('dump')
        res.fault_log = d['fault_log']
        res.kernel = d.get('kernel')
        res.record = d.get('record')
        self.fault_logs[spec['salt']] = d['fault_log']
        st['events'] += d['events']
        st['steps'] += d['steps']
        st['simtime'] += d['simtime']
        st['snaps'] += len(res.snaps)
        st['digests'].append(d['digest'])
        for k, v in d['fired'].items():
            st['fired'][k] = st['fired'].get(k, 0) + v
        for k, v in d['probes'].items():
            st['probes'][k] = st['probes'].get(k, 0) + v
        if res.kernel:
            st['ops'] += res.kernel['done']
        w = d.get('world')
        if w:
            self.store, self.now = w['store'], w['now']
            if w['model'] is not None:
                self.model = w['model']
        res.tail = d['tail']
        return res


# ---------------------------------------------------------------------- in the child


def _child(run, spec, outdir):
    global _cur_sim, _cur_store
    gc.disable()
    for n, fd, fl in (('in', 0, os.O_RDONLY), ('out', 1, os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                      ('err', 2, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
        f = os.open(os.path.join(outdir, n), fl, 0o600)
        os.dup2(f, fd)
        os.close(f)
    sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), encoding='utf-8')
    sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8',
                                  write_through=True)
    sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8',
                                  write_through=True, errors='backslashreplace')
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    atexit._clear()
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE_LIMIT, FSIZE_LIMIT))
    tempfile.tempdir = outdir
    cfg = run.cfg
    snaps = []
    d = {'dump': None}

    sim = Sim(
        '%s/%s' % (run.seed, spec['salt']),
        base_time=run.now + run.skew,
        sched_policy=spec['policy'] or cfg['policy'],
        sched_limit=spec['sched_limit'],
        thread_delay=cfg['thread_delay'],
        clock_stall=cfg['stall'],
        crash_points=spec['crash'],
        src=SRC,
        record=spec['record'],
        max_steps=cfg.get('max_steps', 3_000_000),
    )
    _cur_sim = sim
    _cur_store = run.store
    sim.probes = {}
    sim.backend_latency = tuple(spec['lat'] or cfg['lat'])
    sim.list_page = cfg['page']
    sim.rng_net = stream(sim.seed, 'net')
    sim.rng_client = stream(sim.seed, 'client')
    sim.fault_log = []
    faults = Faults(sim, spec['faults'])
    sim.backend_fault = faults.decide
    sim.disk_faults = {(int(k) if k.isdigit() else k): v for k, v in spec['disk'].items()}
    sim.watch_dir = run.cachedir()
    sim.thread_yields = cfg.get('thread_yields', False)
    state = {'kernel': None, 'viol': None, 'rc': None, 'exc': None, 'exc_type': None}

    def finish(viol=None):
        k = state['kernel']
        if k:
            for key, n in (('refused (EPERM)', k.refused), ('replicas compared', k.copies_full),
                           ('files in replicas', k.copied_files),
                           ('rmtree ENOTEMPTY', k.rm_notempty)):
                if n:
                    sim.probes[key] = sim.probes.get(key, 0) + n
        d.update(
            rc=state['rc'], exc=state['exc'], exc_type=state['exc_type'],
            violation=viol.as_dict() if viol else None,
            snaps=snaps, fault_log=sim.fault_log, events=sim.events, steps=sim.steps,
            simtime=sim.elapsed(), digest=sim.digest(), fired=dict(sim.faults_fired),
            probes=dict(sim.probes), counts=dict(sim.counts),
            tail=list(sim.tail) if viol or state['exc'] else [], record=sim.record,
            kernel=k and {'done': k.tasks_done, 'errors': k.errors, 'maxlat': k.max_latency,
                          'fatal': k.fatal and (k.fatal[0], repr(k.fatal[1])),
                          'failsafe': bool(k.ops.failsafe), 'results': k.results,
                          'info': {**getattr(k, 'info', {}), 'damaged': sorted(k.damaged),
                                   'bad_objects': sorted(k.bad_objects), 'eio': k.eio_seen}},
        )
        if spec['died'] and state['exc']:
            # the process ended in the middle of things: like a crash at this instant
            coin = stream(sim.seed, 'settle-end')
            run.store.settle(lambda: coin.random() < 0.5)
        else:
            if run.model is not None and spec['clients']:
                run.model.reset_session()
            run.store.settle(lambda: False)
        d['world'] = {'store': run.store, 'model': run.model if spec['clients'] else None,
                      'now': sim.peek_time() - run.skew + cfg.get('gap', 10.0)}
        with core.real_open(os.path.join(outdir, 'result.tmp'), 'wb') as fh:
            pickle.dump(d, fh, protocol=5)
        sim._real_rename(os.path.join(outdir, 'result.tmp'), os.path.join(outdir, 'result'))
        if spec['cmd'] == 'verify':
            # as the interpreter does when it exits
            atexit._run_exitfuncs()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    sim.abort_hook = finish

    def on_crash(ev, lines):
        if len(snaps) >= cfg.get('max_snaps', 6):
            return
        i = len(snaps)
        sid = spec['id'] * 100 + i
        sdir = os.path.join(outdir, 'snap%d' % i)
        shutil.copytree(run.cachedir(), sdir)
        st = run.store.clone()
        coin = stream(sim.seed, 'settle', ev, lines)
        before = st.objects.get('s3ql_params')
        st.settle(lambda: coin.random() < 0.5)
        puts = list(sim.param_puts)
        if st.objects.get('s3ql_params') is not before:
            puts.append(sim.counts['fuse-close'] > 0)
        with core.real_open(sdir + '.pkl', 'wb') as fh:
            pickle.dump({'store': st, 'model': run.model, 'now': sim.peek_time() - run.skew + 5}, fh,
                        protocol=5)
        sim.fired('crash')
        snaps.append({'id': sid, 'dir': sdir, 'file': sdir + '.pkl', 'ev': ev, 'lines': lines,
                      'puts': puts,
                      'after': [repr(t) for t in list(sim.tail)[-6:]]})

    sim.on_crash = on_crash
    sim.param_puts = []  # for each superblock stored: whether it was after the unmount

    def on_put(key):
        if key == 's3ql_params':
            sim.param_puts.append(sim.counts['fuse-close'] > 0)
        if spec['cmd'] == 'mount':
            backups(key)
        if run.model is not None and spec['clients']:
            run.model.on_put(key)

    begun, complete = set(), set()

    def backups(key):
        '''The metadata of a complete backup may not be overwritten'''
        if key.startswith('s3ql_metadata_'):
            seq = int(key.rsplit('_', 1)[1], 16)
            newer = [k for k in run.store.keys('s3ql_params_') if int(k[12:], 16) > seq]
            if seq in complete or newer:
                sim.abort(Violation('overwritten', 'metadata backup %d was complete, but now %s has '
                                    'been overwritten' % (seq, key)))
            begun.add(seq)
        elif key.startswith('s3ql_params_') and int(key[12:], 16) in begun:
            complete.add(int(key[12:], 16))

    sim.on_put = on_put
    sim.install()
    if spec['hooks']:
        HOOKS[spec['hooks']](run, sim, spec)
    if spec['cmd'] == 'mount':
        import s3ql.inode_cache

        if hasattr(s3ql.inode_cache, 'CACHE_SIZE'):
            s3ql.inode_cache.CACHE_SIZE = cfg['icache']
        _install_fuse(run, sim, spec, state, d)
    try:
        if spec['func']:
            spec['func'](run, sim, spec, d)
        else:
            mod = sys.modules['s3ql.' + spec['cmd']]
            sys.argv = [spec['cmd'] + '.s3ql', *spec['args']]
            mod.main(list(spec['args']))
        state['rc'] = 0
    except SystemExit as exc:
        state['rc'] = exc.code if exc.code is not None else 0
    except BaseException as exc:  # noqa: BLE001
        _describe(exc, state)
        try:
            sys.excepthook(type(exc), exc, exc.__traceback__)
        except SystemExit as e:
            state['rc'] = e.code
    if state['kernel'] is not None and state['rc'] == 0:
        state['kernel'].after_exit()
    finish()


def _describe(exc, state):
    from s3ql.logging import QuietError

    if isinstance(exc, BaseExceptionGroup) and len(exc.exceptions) == 1:
        inner = exc
        while isinstance(inner, BaseExceptionGroup) and len(inner.exceptions) == 1:
            inner = inner.exceptions[0]
    else:
        inner = exc
    if isinstance(exc, QuietError):
        state['rc'] = exc.exitcode
        return
    state['rc'] = 1
    state['exc_type'] = type(inner).__name__
    state['exc'] = ''.join(traceback.format_exception(exc))


class Faults:
    '''Decides the fault of each storage request'''

    def __init__(self, sim, spec):
        self.sim = sim
        self.spec = spec
        self.n = 0
        self.seen = {}
        self.list = {int(k): v for k, v in spec.get('list', {}).items()}
        self.rules = [dict(r, hits=0) for r in spec.get('rules', ())]

    def decide(self, store, num, kind, key):
        self.n += 1
        n = self.n
        f = self.list.get(n)
        if f is None:
            f = self.by_rule(n, kind, key)
        if f is None and self.spec.get('rate'):
            f = self.by_rate(n, kind, key)
        if f is None and self.spec.get('outages'):
            f = self.by_time(n, kind, key)
        if f is not None:
            self.sim.fault_log.append((n, f, kind, key))
        return f

    def by_rule(self, n, kind, key):
        for r in self.rules:
            if r.get('kind') and kind != r['kind']:
                continue
            if r.get('prefix') and not key.startswith(r['prefix']):
                continue
            r['hits'] += 1
            lo = r.get('nth', 1)
            if lo <= r['hits'] < lo + r.get('times', 1):
                return r['fault']
        return None

    def by_time(self, n, kind, key):
        now = self.sim.elapsed()
        for o in self.spec['outages']:
            if not o['at'] <= now < o['at'] + o['secs']:
                continue
            if o.get('only') and kind not in o['only']:
                continue
            rng = stream(self.sim.seed, 'outage', n)
            if rng.random() >= o.get('rate', 1.0):
                continue
            k = rng.choice(o['kinds'])
            if k == 'stall':
                return {'kind': 'stall', 'secs': rng.choice((20.0, 60.0))}
            if k == 'temp':
                return {'kind': 'temp', 'retry_after': rng.choice((None, None, 3, 60))}
            return {'kind': k}
        return None

    def by_rate(self, n, kind, key):
        sp = self.spec
        if sp.get('until') and n > sp['until']:
            return None
        rng = stream(self.sim.seed, 'fault', sp.get('seed', 0), n)
        rate = sp['rate']
        # bursts: the rate is concentrated in windows of requests
        if sp.get('burst'):
            w = n // sp['burst']
            if stream(self.sim.seed, 'burst', sp.get('seed', 0), w).random() > 0.25:
                return None
            rate *= 3
        if rng.random() >= rate:
            return None
        k = rng.choice(sp['kinds'])
        if k == 'slow':
            return {'kind': 'slow', 'secs': rng.choice((0.5, 4.0, 30.0))}
        if k == 'stall':
            return {'kind': 'stall', 'secs': rng.choice((20.0, 60.0))}
        if k == 'temp':
            return {'kind': 'temp', 'retry_after': rng.choice((None, None, 3, 60))}
        return {'kind': k}


def _install_fuse(run, sim, spec, state, d):
    import pyfuse3

    from .kernel import Kernel

    cell = {}

    def init(ops, mountpoint, opts):
        cell['ops'] = ops
        sim.ev('fuse-init')

    def close(unmount=True):
        sim.ev('fuse-close', unmount)

    async def main(min_tasks=1, max_tasks=99):
        pyfuse3.trio_token = trio.lowlevel.current_trio_token()
        try:
            ops = cell['ops']
            ops.init()
            kcfg = {
                'forget_delay': run.cfg['forget_delay'], 'think': run.cfg['think'],
                'writeback': run.cfg['writeback'], 'uid': run.cfg['uid'],
                'gid': run.cfg.get('gid', run.cfg['uid']), **spec['kcfg'],
            }
            for name in ('check_stat', 'after_op', 'at_end', 'at_start', 'after_call', 'on_unlink'):
                if isinstance(kcfg.get(name), str):
                    kcfg[name] = KHOOKS[kcfg[name]]
            k = Kernel(sim, run.model, ops, kcfg)
            k.terminate = cell.setdefault('term', trio.Event())
            state['kernel'] = k
            k.run_obj = run
            if run.model is not None and k.root.id not in run.model.inodes:
                raise HarnessError('model without root')
            if spec['dump']:
                old = k.cfg.get('at_end')

                async def at_end(kk):
                    if old:
                        await old(kk)
                    from .tree import dump_tree

                    d['dump'] = await dump_tree(kk)

                k.cfg['at_end'] = at_end
            if kcfg.get('at_start'):
                kcfg['at_start'](k)
            if kcfg.get('on_unlink'):
                sim.on_unlink = lambda path: kcfg['on_unlink'](k, path)
            await k.run(spec['clients'] or [])
            sim.on_unlink = None
            sim.program_wait = True
            if k.fatal is not None:
                raise k.fatal[1]
            if spec['end'] == 'sigterm':
                signal.getsignal(signal.SIGTERM)(signal.SIGTERM, None)
        finally:
            pyfuse3.trio_token = None

    def terminate():
        cell['term'].set()

    pyfuse3.init = init
    pyfuse3.close = close
    pyfuse3.main = main
    pyfuse3.terminate = terminate
    pyfuse3.trio_token = None
    if spec['kcfg'].get('batch_scale'):
        _small_batches(spec['kcfg']['batch_scale'])
    pyfuse3.invalidate_inode = lambda ino, attr_only=False: state['kernel'].invalidate_inode(
        ino, attr_only)
    pyfuse3.invalidate_entry_async = (
        lambda parent, name, deleted=0, ignore_enoent=False: state['kernel'].invalidate_entry(
            parent, name, deleted))
    pyfuse3.readdir_reply = lambda token, name, attr, nxt: token.reply(name, attr, nxt)


def _small_batches(scale):
    '''Let tree commands yield after fewer rows (the real minimum is 100)'''
    from s3ql import database

    cls = getattr(database, 'BatchedTransactionManager', None)
    if cls is None:
        return

    def get(self):
        n = self.__dict__.get('batch_size', 100)
        if scale < 0.1:
            n = min(n, 100)  # as on a slow disk
        return max(2, int(n * scale))

    def put(self, val):
        self.__dict__['batch_size'] = val

    cls.batch_size = property(get, put)


HOOKS = {}
KHOOKS = {}


def hook(fn):
    HOOKS[fn.__name__] = fn
    return fn


def khook(fn):
    KHOOKS[fn.__name__] = fn
    return fn
