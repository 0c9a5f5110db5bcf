'''Shared parts of the scenarios.'''

import json
import os

from . import tree
from .core import Violation
from .world import Run, HarnessError


def start(plan, holder, setup=True, keep=False):
    run = Run(plan, keep=bool(os.environ.get('DST_KEEP')) or keep)
    holder['run'] = run
    holder['stats'] = run.stats
    holder['logs'] = run.fault_logs
    res = run.mkfs(lat=[0.0])
    if res.rc != 0:
        raise Violation('mkfs', 'mkfs failed: rc %s\n%s' % (res.rc, res.err[-1000:]))
    run.model = tree.initial_model()
    return run


def expect_rc(res, what, ok=(0,)):
    if res.rc not in ok:
        raise Violation('exit-status', '%s: exit status %s' % (what, res.rc),
                        stderr=res.err[-2500:])


def no_errors(res, what):
    '''No message of severity error or worse'''
    for line in res.err.splitlines():
        if line.startswith(('ERROR:', 'FATAL:')):
            raise Violation('error-message', '%s logged: %s' % (what, line))


FSCK_OK = (0, 128)


def work(run, clients, salt, what='mount', **kw):
    '''One mount that must end well'''
    res = run.mount(clients, salt=salt, **kw)
    expect_rc(res, what)
    return res


def verify_data(run, salt):
    '''s3ql_verify --data must be satisfied (hashes recorded match what is stored)'''
    d = os.path.join(run.dir, 'verify-%d' % run.n)
    os.mkdir(d)
    res = run.verify(extra=('--data', '--cachedir', run.cachedir(), '--missing-file', d + '/m',
                            '--corrupted-file', d + '/c'), lat=[0.0], salt=salt)
    if res.rc != 0:
        raise Violation('stored-data', 's3ql_verify --data: exit status %s: %s'
                        % (res.rc, warnings(res)))


def table_check(run, clean=True, **kw):
    db = tree.db_path(run)
    if db is None:
        raise Violation('metadata', 'no metadata database in the cache directory')
    return tree.check_tables(db, run.store, clean=clean, blocksize=run.cfg['block'] * 1024, **kw)


def read_back(run, **kw):
    '''Mount, read the whole tree, unmount'''
    res = run.mount([], dump=True, lat=[0.0], kcfg=kw.pop('kcfg', {}), **kw)
    expect_rc(res, 'mount')
    return res.dump


def recover(run, snap, nested=(), fsck_faults=None):
    '''Enter the state at a crash, run fsck.s3ql (possibly interrupted itself) and read back'''
    w = run.enter_snapshot(snap)
    return recover_here(run, nested=nested, salt='r%d' % snap['id'], faults=fsck_faults)


def fsck_clean(run, salt, what):
    '''A forced fsck must find nothing'''
    res = run.fsck(extra=('--batch', '--force'), lat=[0.0], salt=salt)
    if res.rc != 0:
        raise Violation('fsck-not-clean', '%s: fsck.s3ql exit status %s: %s'
                        % (what, res.rc, warnings(res)))
    return res


def warnings(res):
    return '; '.join(l for l in res.err.splitlines() if l.startswith(('WARNING', 'ERROR')))[:1500]


def recover_here(run, nested=(), salt='r', faults=None, second=False):
    '''fsck.s3ql, check the tables, mount and read back; returns the dump'''
    res = run.fsck(lat=[0.0] if not faults else None, salt=salt + 'f', crash=nested, faults=faults)
    expect_rc(res, 'fsck.s3ql after a crash', FSCK_OK)
    snaps = res.snaps
    if 'File system is marked as clean' not in res.err:
        table_check(run)
    if second:
        fsck_clean(run, salt + 'g', 'second fsck.s3ql')
    dump = read_back(run, salt=salt + 'm')
    return dump, snaps


def remote_params(run, salt):
    '''What the superblock in the storage service says: (sequence number, mounted, needs fsck)'''
    def func(run, sim, spec, d):
        import trio
        from s3ql.authinfo import Authinfo
        from s3ql.backends import open_backend
        from s3ql.backends.comprenc import AsyncComprencBackend
        from s3ql.database import read_remote_params
        from .world import URL

        async def main():
            auth = Authinfo.from_file(os.path.join(run.dir, 'auth'), URL)
            AsyncComprencBackend.set_max_threads(1)
            backend = await open_backend(URL, auth, backend_options=None, max_connections=1,
                                         compress=auth.compress)
            p = await read_remote_params(backend)
            d['params'] = (p.seq_no, bool(p.is_mounted), bool(p.needs_fsck))

        trio.run(main)

    res = run.inc('params', [], func=func, salt=salt, lat=[0.0])
    return res.d['params']
