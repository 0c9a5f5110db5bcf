'''Runs the real mkfs.s3ql, mount.s3ql, fsck.s3ql, ... of the tree in the current directory, without FUSE: the
requests come from a coroutine. Everything happens below a scratch directory.'''

import errno
import io
import os
import shutil
import signal
import stat
import sys
import tempfile
import traceback

ROOT = os.getcwd()
sys.path.insert(0, os.path.join(ROOT, 'src'))
os.environ['PYTHONPATH'] = os.path.join(ROOT, 'src')

import pyfuse3  # noqa: E402
import trio  # noqa: E402

import s3ql  # noqa: E402

assert os.path.dirname(s3ql.__file__).startswith(ROOT), s3ql.__file__


class Ctx:
    uid = os.getuid()
    gid = os.getgid()
    pid = 1
    umask = 0o22


class Fields:
    def __init__(self, **kw):
        for n in ('atime', 'mtime', 'ctime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + n, False)
        self.__dict__.update(kw)


CTX = Ctx()


class FS:
    def __init__(self, plain=True, block=1, encrypt=None):
        self.dir = tempfile.mkdtemp(prefix='s3ql-demo-')
        self.bucket = os.path.join(self.dir, 'bucket')
        self.cache = os.path.join(self.dir, 'cache')
        self.mnt = os.path.join(self.dir, 'mnt')
        for d in (self.bucket, self.cache, self.mnt):
            os.mkdir(d)
        self.auth = os.path.join(self.dir, 'auth')
        open(self.auth, 'w').close()
        os.chmod(self.auth, 0o600)
        self.url = 'local://' + self.bucket
        self.block = block

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- processes

    def child(self, fn, timeout=60):
        '''Run fn() in a child process, return (exit status, output)'''
        out = os.path.join(self.dir, 'out')
        pid = os.fork()
        if pid == 0:
            rc = 99
            try:
                signal.alarm(timeout)
                os.setpgid(0, 0)
                fd = os.open(out, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                sys.stdin = io.StringIO(getattr(self, 'stdin', ''))
                try:
                    fn()
                    rc = 0
                except SystemExit as exc:
                    rc = exc.code if isinstance(exc.code, int) else (1 if exc.code else 0)
                except BaseException:
                    traceback.print_exc()
                    rc = 98
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc or 0)
        _, st = os.waitpid(pid, 0)
        with open(out, errors='replace') as fh:
            text = fh.read()
        self.text = text
        if os.WIFSIGNALED(st):
            return -os.WTERMSIG(st)
        return os.WEXITSTATUS(st)

    def opts(self):
        return ['--cachedir', self.cache, '--authfile', self.auth]

    def tool(self, mod, args, **kw):
        def fn():
            __import__('s3ql.' + mod)
            m = sys.modules['s3ql.' + mod]
            m.main(args)

        return self.child(fn, **kw)

    def mkfs(self, *args):
        rc = self.tool('mkfs', [*self.opts(), '--plain', '--data-block-size', str(self.block),
                                *args, self.url])
        assert rc == 0, self.text

    def fsck(self, *args):
        return self.tool('fsck', [*self.opts(), '--batch', '--log', 'none', *args, self.url])

    def adm(self, *args):
        return self.tool('adm', [args[0], *self.opts(), '--log', 'none', *args[1:], self.url])

    def verify(self, *args):
        return self.tool('verify', [*self.opts(), *args, self.url])

    def mount(self, script, *args, patch=None, threads=1, timeout=60):
        '''Mount, run `await script(ops)`, unmount. Returns the exit status.'''

        def fn():
            from s3ql import mount

            if patch:
                patch()
            cell = {}

            def init(ops, mnt, opts):
                cell['ops'] = ops

            async def main():
                pyfuse3.trio_token = trio.lowlevel.current_trio_token()
                ops = cell['ops']
                ops.init()
                await script(ops)

            pyfuse3.init = init
            pyfuse3.main = main
            pyfuse3.close = lambda unmount=True: None
            pyfuse3.terminate = lambda: None
            pyfuse3.invalidate_inode = lambda *a, **k: None
            pyfuse3.invalidate_entry_async = lambda *a, **k: None
            mount.main([*self.opts(), '--fg', '--log', 'none', *args, self.url, self.mnt])

        return self.child(fn, timeout=timeout)


# -- file system requests


async def create(ops, parent, name, data=b''):
    fi, attr = await ops.create(parent, name, 0o644 | stat.S_IFREG, os.O_RDWR, CTX)
    if data:
        await ops.write(fi.fh, 0, data)
    await ops.release(fi.fh)
    return attr.st_ino


async def write(ops, ino, off, data):
    fi = await ops.open(ino, os.O_RDWR, CTX)
    await ops.write(fi.fh, off, data)
    await ops.release(fi.fh)


async def read(ops, ino, off=0, n=1 << 20):
    fi = await ops.open(ino, os.O_RDONLY, CTX)
    buf = await ops.read(fi.fh, off, n)
    await ops.release(fi.fh)
    return bytes(buf)


async def look(ops, parent, name):
    return (await ops.lookup(parent, name, CTX)).st_ino


async def truncate(ops, ino, size):
    attr = await ops.getattr(ino, CTX)
    attr.st_size = size
    await ops.setattr(ino, attr, Fields(update_size=True), None, CTX)


async def ctrl(ops, name, value=b''):
    await ops.setxattr(2, name, value, CTX)


def fails(cond, what):
    if cond:
        print('BROKEN:', what)
        sys.exit(1)
