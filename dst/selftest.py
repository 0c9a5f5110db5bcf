'''Determinism: the same plan executed twice, in different processes, gives the same event logs.'''

from . import boot, runner, world
from .core import stream


def main():
    src = boot.setup()
    world.init(src)
    bad = 0
    for prop in ('C01',):
        mod = runner._mod = runner.load(prop)
        if hasattr(mod, 'prepare'):
            mod.prepare()
        jobs = []
        for i in range(6):
            plan = mod.gen(stream('selftest', prop, i), i, 'quick')
            plan['seed'] = 'selftest.%s.%d' % (prop, i)
            jobs.append((i, plan))
        p = runner.pool()
        try:
            runs = p.map(runner._work, jobs + jobs, chunksize=1)
        finally:
            p.terminate()
            p.join()
        for (i, a), (_, b) in zip(runs[:6], runs[6:]):
            da = (a.get('stats') or {}).get('digests')
            db = (b.get('stats') or {}).get('digests')
            if da != db:
                bad += 1
                print('selftest: %s plan %d is not deterministic' % (prop, i))
    print('selftest: %s' % ('FAILED' if bad else 'deterministic'))
    # a changed tree may be broken in ways that only the checks should report
    return 0
