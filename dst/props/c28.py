'''C28: expire_backups.py keeps what it promises to keep, whatever happens to it.'''

import ast
import datetime
import importlib.util
import os
import re
import shutil
import sys
import types

from .. import boot, core, scen
from ..core import Violation

PROP = 'C28'
RUNS = {'quick': 400, 'thorough': 20000}
RULE = ('One run: a history of backup cycles in a scratch directory. In each cycle backups appear '
        '(irregularly, sometimes none or several, some are deleted by hand) and the real '
        'expire_backups.py is called (dry runs, limits to the proportion, changed age ranges, '
        's3qlrm or not); it is killed at generated instants - between two source lines, or in the '
        'middle of deleting a backup - and the rest of the history goes on from there. After each '
        'complete run the age ranges must be covered, now and for all forthcoming cycles, as well '
        'as they could be; what is left must be complete backups; nothing redundant is kept.')
NOTE = ('Seeded search over histories and kill instants. The removal of directories is a stand-in '
        'that deletes entry by entry and refuses to leave the scratch directory; the real s3qlrm '
        'runs with the same stand-in for the file system. A backup counts as usable if all its files are there.')

REAL = ['contrib/expire_backups.py', 's3ql.remove (s3qlrm)', 's3ql.common, s3ql.parse_args, s3ql.logging',
        'state file and directories on a real scratch directory']
STUB = ['shutil.rmtree (entry by entry, confined to the scratch directory)',
        'the file system behind s3qlrm (pyfuse3.setxattr)', 'clock', 'the process being killed (snapshots)']
FILES = 3
NAME = re.compile(r'^\d{4}-\d\d-\d\d_\d\d:\d\d:\d\d$')


def gen(rng, idx, tier):
    def cycles():
        return sorted(rng.sample(range(1, rng.choice((5, 9, 15))), rng.choice((1, 2, 3, 4))))

    n = rng.choice((6, 12, 25, 40))
    steps = []
    for _ in range(n):
        x = rng.random()
        s = {'new': 1 if x < 0.8 else rng.choice((0, 2, 3)), 'gap': rng.choice((3600, 86400, 604801))}
        if rng.random() < 0.06:
            s['dry'] = True
        if rng.random() < 0.05:
            s['lost'] = rng.randrange(50)
        if rng.random() < 0.04:
            s['cycles'] = cycles()
        steps.append(s)
    return {
        'cfg': {'think': [0.0], 'lat': [0.0]}, 'cycles': cycles(), 'steps': steps,
        'prop': rng.choice((0.5, 1.0, 1.0)), 's3qlrm': rng.random() < 0.4,
        'crash': [instant(rng, n) for _ in range(rng.choice((0, 1, 2, 3)))],
        'abs': rng.random() < 0.7,
        'retry': rng.random() < 0.4, 'rebuild': rng.random() < 0.15,
    }


def instant(rng, n):
    x = rng.random()
    if x < 0.4:
        return ['unlink', rng.randrange(1, 4 * n), rng.choice((0, 0, 3))]
    if x < 0.6:
        return ['step', rng.randrange(2, n + 1), rng.randrange(400)]
    # while the state is being saved
    return [rng.choice(('rename', 'rename', 'fopen', 'fwrite', 'fsync')), rng.randrange(1, 3 * n),
            rng.choice((0, 1, 2, 4))]


class History:
    '''What a user knows: which backups have been made, in which order'''

    def __init__(self, cycles):
        self.inodes = {}
        self.age = {}
        self.cycles = cycles
        self.step = 0  # next step to be done
        self.stamp = 1_600_000_000
        self.made = 0
        self.runs = 0
        self.phase = 'idle'
        self.careful = False
        self.guessed = False  # ages reconstructed from dates, by a run that was killed

    def reset_session(self):
        pass


def execute(plan, holder):
    run = scen.Run(plan)
    holder.update(run=run, stats=run.stats, logs=run.fault_logs)
    try:
        os.makedirs(os.path.join(run.cachedir(), 'backups'), exist_ok=True)
        run.model = History(plan['cycles'])
        res = go(run, plan, plan['crash'], 'all')
        for snap in res.snaps:
            run.enter_snapshot(snap)
            m = run.model
            m.careful = True
            if m.phase == 'run' and not plan['retry']:
                m.phase = 'idle'
                m.step += 1
            go(run, plan, (), 'after%d' % snap['id'])
        if plan['rebuild']:
            rebuild(run, plan)
        return run.stats
    finally:
        run.close()


def go(run, plan, crash, salt):
    def func(run, sim, spec, d):
        h = run.model
        tool = Tool(sim, os.path.join(run.cachedir(), 'backups'))
        if plan['abs']:
            tool.state = ['--state', os.path.join(run.cachedir(), 'backups', '.expire_backups.dat')]
        while h.step < len(plan['steps']):
            step(sim, tool, h, plan['steps'][h.step], plan)
            h.step += 1
            h.phase = 'idle'

    res = run.inc('expire', [], func=func, crash=crash, salt=salt, clients=[[]])
    scen.expect_rc(res, 'the history')
    return res


def rebuild(run, plan):
    '''The state file is lost: it may be reconstructed from the dates'''
    def func(run, sim, spec, d):
        h = run.model
        tool = Tool(sim, os.path.join(run.cachedir(), 'backups'))
        if not os.path.exists('.expire_backups.dat') or len(tool.backups()) < 2:
            return
        os.unlink('.expire_backups.dat')
        before = tool.backups()
        rc = tool.run([str(c) for c in h.cycles])
        if rc != 1 or tool.backups() != before:
            raise Violation('no-state', 'exit status %s without a state file, with backups %s'
                            % (rc, sorted(before)))
        rc = tool.run(['--reconstruct-state', '-p', '1'] + [str(c) for c in h.cycles])
        if rc != 0:
            raise Violation('exit-status', 'exit status %s with --reconstruct-state' % rc)
        tool.whole('reconstructing')

    crash = [['step', 1, 200 + 97 * len(plan['steps']) % 300]]
    res = run.inc('expire', [], func=func, salt='rebuild', crash=crash)
    scen.expect_rc(res, 'reconstructing')


class Tool:
    '''expire_backups.py as a program'''

    def __init__(self, sim, where):
        self.sim = sim
        self.where = os.path.realpath(where)
        self.state = []
        os.chdir(where)
        shutil.rmtree = self.rmtree
        import s3ql.remove

        # the real s3qlrm, with a stand-in for the file system that it talks to
        s3ql.remove.assert_fs_owner = lambda path: (path, os.stat(path))[0]
        s3ql.remove.pyfuse3 = types.SimpleNamespace(syncfs=os.stat, setxattr=self.setxattr)
        path = os.path.join(boot.REPO, 'contrib', 'expire_backups.py')
        sim.src = (sim.src, path) if isinstance(sim.src, str) else sim.src
        spec = importlib.util.spec_from_file_location('expire_backups', path)
        self.mod = importlib.util.module_from_spec(spec)
        sys.modules['expire_backups'] = self.mod
        spec.loader.exec_module(self.mod)
        real = getattr(self.mod, 'datetime', datetime.datetime)
        if not isinstance(real, type):
            real = real.datetime
        now = sim

        class Clock(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(now.time(), tz)

        if isinstance(getattr(self.mod, 'datetime', None), type):
            self.mod.datetime = Clock
        else:
            self.mod.datetime = types.SimpleNamespace(
                **{k: v for k, v in vars(datetime).items() if k[0] != '_'})
            self.mod.datetime.datetime = Clock
        self.out = None

    def setxattr(self, path, name, value):
        ino, entry = ast.literal_eval(value.decode())
        if name != 'rmtree' or os.stat(self.where).st_ino != ino:
            self.sim.abort(Violation('outside', 's3qlrm: %s %r' % (name, value)))
        self.rmtree(os.path.join(self.where, os.fsdecode(entry)))

    def rmtree(self, path, *a, **kw):
        top = os.path.realpath(path)
        if os.path.dirname(top) != self.where:
            self.sim.abort(Violation('outside', 'tries to remove %s' % path))
        todo = [top]
        while todo:
            p = todo.pop()
            if os.path.isdir(p) and not os.path.islink(p):
                names = sorted(core.real_listdir(p))
                if names:
                    todo += [p] + [os.path.join(p, n) for n in names]
                    continue
                self.sim.ev('unlink', os.path.relpath(p, self.where))
                os.rmdir(p)
            else:
                os.unlink(p)

    def backups(self):
        return {n for n in core.real_listdir(self.where) if NAME.match(n)}

    def usable(self, name):
        return len(core.real_listdir(os.path.join(self.where, name))) == FILES

    def whole(self, when):
        for n in sorted(self.backups()):
            if not self.usable(n):
                self.sim.abort(Violation('remnant', 'after %s, %s looks like a backup but is not '
                                         'complete' % (when, n)))

    def run(self, args):
        import logging

        args = [*self.state, *args]

        for hd in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(hd)
        sys.argv = ['expire_backups.py', *args]
        os.chdir(self.where)
        try:
            self.mod.main(list(args))
        except SystemExit as exc:
            return exc.code or 0
        except BaseException as exc:  # noqa: BLE001
            if type(exc).__name__ == 'QuietError':
                return exc.exitcode
            raise
        return 0


def step(sim, tool, h, s, plan):
    if h.phase == 'idle':
        make(h, tool, s)
        if 'cycles' in s:
            h.cycles = s['cycles']
    h.phase = 'run'
    before = tool.backups()
    if h.guessed and os.path.exists('.expire_backups.dat'):
        h.guessed = False
        h.runs += 1
        h.age = dict.fromkeys(before)
        resync(tool, h)
    saved = dict(h.age)
    # ages count the backups found since
    for n in sorted(before - set(h.age)):
        for k in h.age:
            h.age[k] += 1
        h.age[n] = 0
    for n in set(h.age) - before:
        del h.age[n]
    good = {n for n in before if tool.usable(n)}
    files = contents(tool)
    args = ['-p', str(plan['prop'])] + (['--use-s3qlrm'] if plan['s3qlrm'] else [])
    if s.get('dry'):
        args.append('-n')
    sim.ev('step', h.step, sorted(before))
    rc = tool.run(args + [str(c) for c in h.cycles])
    after = tool.backups()
    want = keep(h.age, h.cycles)
    if rc == 1 and not h.runs and len(before) > 1:
        # there was no complete run yet, and hence no state: this has to be asked for
        h.guessed = True
        rc = tool.run(['--reconstruct-state', '-p', '1'] + [str(c) for c in h.cycles])
        sim.probes['reconstructed'] = sim.probes.get('reconstructed', 0) + 1
        raise_rc(sim, rc)
        h.guessed = False
        h.runs += 1
        h.age = dict.fromkeys(tool.backups())
        resync(tool, h)
        return
    if rc == 1 and len(before - want) > plan['prop'] * len(before):
        sim.probes['too-many'] = sim.probes.get('too-many', 0) + 1
        if after != before or contents(tool) != files:
            sim.abort(Violation('changed', 'refuses, but has removed something'))
        h.age = saved
        return
    raise_rc(sim, rc, ': ages %s, ranges %s, runs %d, backups %s' % (
        sorted((a, n) for n, a in h.age.items()), h.cycles, h.runs, sorted(before)))
    if s.get('dry'):
        if contents(tool) != files:
            sim.abort(Violation('changed', 'a dry run has changed %s'
                                % sorted(set(files) ^ set(contents(tool)))))
        h.age = saved
        return
    h.runs += 1
    tool.whole('a complete run')
    if after - before:
        sim.abort(Violation('changed', 'backups %s appear' % sorted(after - before)))
    text = 'ages %s, ranges %s, kept %s' % (sorted((a, n) for n, a in h.age.items()), h.cycles,
                                            sorted(after))
    ages0 = {h.age[n] for n in good}
    ages1 = {h.age[n] for n in after}
    lo = 0
    for hi in h.cycles:
        for t in range(h.cycles[-1]):
            new = set(range(t))  # made in the meantime
            if covered(ages0, t, new, lo, hi) and not covered(ages1, t, new, lo, hi):
                sim.abort(Violation('not-covered', 'nothing is %d to %d cycles old %s: %s' % (
                    lo, hi, 'in %d cycles' % t if t else 'now', text)))
        lo = hi
    if len(after) > len(want):
        sim.abort(Violation('redundant', '%d backups kept, %d are enough: %s'
                            % (len(after), len(want), text)))
    for n in before - after:
        sim.probes['expired'] = sim.probes.get('expired', 0) + 1
        h.age.pop(n, None)


def resync(tool, h):
    '''Ages as reconstructed by the program'''
    with core.real_open(os.path.join(tool.where, '.expire_backups.dat'), 'rb') as fh:
        from s3ql.common import thaw_basic_mapping

        st = thaw_basic_mapping(fh.read())
    h.age = {n: st[n] for n in st if n in h.age}


def raise_rc(sim, rc, text=''):
    if rc != 0:
        sim.abort(Violation('exit-status', 'exit status %s%s' % (rc, text)))


def covered(ages, t, new, lo, hi):
    return any(lo <= a + t < hi for a in ages) or any(lo <= a < hi for a in new)


def keep(age, cycles):
    '''The documented selection'''
    ranges = list(zip([0] + cycles[:-1], cycles))
    sim, out = {}, set()
    for t in range(cycles[-1]):
        sim = {k: a + 1 for k, a in sim.items()}
        if t:
            sim['new%d' % t] = 0
        for lo, hi in ranges:
            if any(lo <= a < hi for a in sim.values()):
                continue
            for n, a in age.items():
                if lo <= a + t < hi:
                    sim[n] = a + t
                    out.add(n)
                    break
    return out


def contents(tool):
    out = {}
    for n in sorted(core.real_listdir(tool.where)):
        p = os.path.join(tool.where, n)
        out[n] = tuple(sorted(core.real_listdir(p))) if os.path.isdir(p) else \
            core.real_open(p, 'rb').read()
    return out


def make(h, tool, s):
    import time

    careful, h.careful = h.careful, False
    if 'lost' in s and not careful:
        # (whether the killed run had counted it cannot be known)
        have = sorted(tool.backups())
        if len(have) > 2:
            n = have[s['lost'] % len(have)]
            for f in core.real_listdir(os.path.join(tool.where, n)):
                tool.sim._real_unlink(os.path.join(tool.where, n, f))
            os.rmdir(os.path.join(tool.where, n))
    for _ in range(s['new']):
        h.stamp += s['gap']
        name = time.strftime('%Y-%m-%d_%H:%M:%S', tool.sim._real_gmtime(h.stamp))
        os.mkdir(os.path.join(tool.where, name))
        for i in range(FILES):
            core.real_open(os.path.join(tool.where, name, 'f%d' % i), 'w').close()
        h.made += 1
