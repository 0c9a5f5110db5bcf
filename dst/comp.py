'''Simulations of single components (no file system): one forked process per run.'''

from . import core
from .core import Violation
from .world import Run


def run(plan, holder, name, body):
    '''Run the coroutine function body(sim, plan, probe) under the simulator

    *probe(name)* counts what was reached; violations are raised with `fail`.
    '''
    r = Run(plan)
    if plan.get('midnight'):
        r.now += 86400 - r.now % 86400 - plan['midnight']
    holder.update(run=r, stats=r.stats, logs=r.fault_logs)
    try:
        def func(run_, sim, spec, d):
            import os
            import trio

            os.makedirs(run_.cachedir(), exist_ok=True)
            os.chdir(run_.cachedir())

            def probe(what, n=1):
                sim.probes[what] = sim.probes.get(what, 0) + n

            async def top():
                await body(sim, plan, probe)

            trio.run(top)

        r.inc(name, [], func=func, salt=name, faults=plan.get('faults'),
              crash=plan.get('crash', ()), disk=plan.get('disk'))
        return r.stats
    finally:
        r.close()


def fail(sim, cls, msg, **info):
    sim.abort(Violation(cls, msg, **info))


stream = core.stream
