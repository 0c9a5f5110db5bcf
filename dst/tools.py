'''The programs that work on a mounted file system, run for real against the simulated kernel.

`s3qlcp`, `s3qllock`, `s3qlrm`, `s3qlctrl`, `s3qlstat` and `umount.s3ql` are run in a thread of their
own that has the processor only between two system calls: whenever the program touches the mount point,
the process table or the clock, the thread hands over to the simulation, which answers the call in
simulated time.  One thing runs at a time.

The kernel's page cache is modelled for these programs: a write to an open file is acknowledged at once
and sent to the file system later (`Kernel.dirty`), at the latest when the file is synchronised.
'''

import ast
import builtins
import errno
import importlib
import io
import os
import stat
import subprocess
import sys
import threading
import time
import types

import pyfuse3
import trio


MNT = '/simfs'
PID = 4242
CMDLINE = 'mount.s3ql\0sim://bucket/fs\0/simfs\0'

real_os = {n: getattr(os, n) for n in ('stat', 'lstat', 'mkdir', 'scandir', 'listdir', 'kill', 'access')}


class HarnessError(Exception):
    pass


class ToolKilled(BaseException):
    '''Unwinds the program when the simulation ends'''


class Program:
    '''One run of a program; `serve` is called for each of its system calls'''

    def __init__(self, sim, prog, argv):
        self.sim = sim
        self.prog = prog
        self.argv = list(argv)
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.req = self.res = self.out = None
        self.req_left = None
        self.killed = False
        self.stdout, self.stderr = io.StringIO(), io.StringIO()
        self.saved = None
        self.thread = threading.Thread(target=self._target, daemon=True)
        self.mod = importlib.import_module('s3ql.' + prog)

    # -- the program's side

    def _target(self):
        self.go.acquire()
        try:
            if self.killed:
                raise ToolKilled()
            self.mod.main(self.argv)
            self.out = (0, None)
        except SystemExit as exc:
            c = exc.code
            self.out = (c if isinstance(c, int) else 0 if c is None else 1, None)
        except BaseException as exc:  # noqa: BLE001
            code = getattr(exc, 'exitcode', None)
            self.out = (code if isinstance(code, int) else 1, exc)
        self.back.release()

    def syscall(self, name, *args):
        if self.killed:
            raise ToolKilled()
        self.req = (name, args)
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise ToolKilled()
        val, exc = self.res
        if exc is not None:
            raise exc
        return val

    # -- the simulation's side

    def step(self):
        '''Let the program run until its next system call; return that, or None at its end'''
        self._patch()
        self.sim.in_tool = True
        try:
            self.go.release()
            self.back.acquire()
        finally:
            self.sim.in_tool = False
            self._unpatch()
        if self.out is not None:
            self.thread.join()
            return None
        return self.req

    def kill(self):
        self.killed = True
        if self.thread.is_alive():
            while self.out is None:
                self.step()

    def _set(self, obj, name, value):
        if hasattr(obj, name):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)

    def _patch(self):
        self.saved = []
        s = self.syscall

        def inside(p):
            if isinstance(p, (int, io.IOBase)):
                return False
            p = os.fspath(p)
            p = os.fsdecode(p)
            return p == MNT or p.startswith(MNT + '/')

        def path_call(name):
            def fn(path='.', *a, **kw):
                if inside(path):
                    return s(name, os.fsencode(os.fspath(path)), *a)
                return real_os[name](path, *a, **kw)
            return fn

        for n in real_os:
            if n != 'kill':
                self._set(os, n, path_call(n))
        self._set(os, 'kill', lambda pid, sig: s('kill', pid, sig))
        for n in ('setxattr', 'getxattr', 'listdir', 'syncfs'):
            if not hasattr(pyfuse3, n):
                raise HarnessError('pyfuse3.%s' % n)

        def fuse_call(name):
            def fn(path, *a, **kw):
                kw.pop('size_guess', None)
                kw.pop('namespace', None)
                a = a[:2] if name == 'setxattr' else a[:1]
                a += tuple(kw[k] for k in ('name', 'value') if k in kw)
                return s('fuse_' + name, os.fsencode(os.fspath(path)), *a)
            return fn

        for n in ('setxattr', 'getxattr', 'listdir', 'syncfs'):
            self._set(pyfuse3, n, fuse_call(n))
        ropen = builtins.open

        def opener(file, *a, **kw):
            f = os.fsdecode(file) if isinstance(file, (str, bytes)) else ''
            if f.startswith('/proc/') and f.endswith('/cmdline'):
                return io.StringIO(s('cmdline', f.split('/')[2]))
            return ropen(file, *a, **kw)

        self._set(builtins, 'open', opener)

        def call(cmd, **kw):
            return s('run', list(cmd))

        def check_output(cmd, **kw):
            raise subprocess.CalledProcessError(1, cmd)

        def completed(cmd, **kw):
            return types.SimpleNamespace(returncode=s('run', list(cmd)), stdout='', stderr='')

        self._set(subprocess, 'call', call)
        self._set(subprocess, 'run', completed)
        self._set(subprocess, 'check_output', check_output)
        self._set(time, 'sleep', lambda secs: s('sleep', secs))

        def run(fn, *args, **kw):
            coro = fn(*args)
            try:
                coro.send(None)
            except StopIteration as exc:
                return exc.value
            coro.close()
            raise HarnessError('the program waits inside of trio')

        self._set(trio, 'run', run)
        import s3ql.logging

        quiet = lambda *a, **kw: None  # noqa: E731
        self._set(s3ql.logging, 'setup_logging', quiet)
        self._set(s3ql.logging, 'setup_warnings', quiet)
        self._set(self.mod, 'setup_logging', quiet)
        import s3ql.parse_args

        self._set(s3ql.parse_args, 'setup_warnings', quiet)
        self._set(sys, 'stdout', self.stdout)
        self._set(sys, 'stderr', self.stderr)

    def _unpatch(self):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.saved = None


def mkstat(ino, mode, uid, dev=77):
    return os.stat_result((mode, ino, dev, 1, uid, uid, 0, 0, 0, 0))


class _Dir:
    '''Result of scandir()'''

    def __init__(self, prog, fh):
        self.prog, self.fh = prog, fh

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.fh is not None:
            fh, self.fh = self.fh, None
            self.prog.syscall('closedir', fh)


class ToolOps:
    '''Part of the kernel: programs and the page cache'''

    def tools_init(self):
        self.dirty = []  # writes that are acknowledged, but not sent yet
        self.tool_runs = 0
        self.detached = False  # umount(8) has been successful
        self.lazy = False  # ... although files are in use
        self.umount_prog = None

    # ------------------------------------------------------------------ page cache

    def buffered(self, slot):
        p = self.cfg.get('buffered', 0)
        return p and slot and self.sim.rng_client.random() < p

    def write_later(self, ki, fh, m, off, data):
        '''The application's write has returned; the file system learns about it later'''
        ent = types.SimpleNamespace(ki=ki, fh=fh, m=m, off=off, data=data, go=trio.Event(),
                                    done=trio.Event(), ino=m.ino)
        self.dirty.append(ent)
        self.sim.probes['buffered writes'] = self.sim.probes.get('buffered writes', 0) + 1
        self.sim.ev('buffered', m.ino, off, len(data))
        self.nursery.start_soon(self._write_back, ent)

    async def _write_back(self, ent):
        try:
            with trio.move_on_after(self.sim.rng_client.choice((0.01, 0.5, 5.0, 30.0))):
                await ent.go.wait()
            await self.write(ent.ki, ent.fh, ent.m, ent.off, ent.data)
        except self.Fatal:
            self.stop_event.set()
        finally:
            if ent in self.dirty:
                self.dirty.remove(ent)
            ent.done.set()

    async def write_back(self, ki=None):
        for ent in [e for e in self.dirty if ki is None or e.ki is ki]:
            ent.go.set()
            await ent.done.wait()

    # ------------------------------------------------------------------ running a program

    async def tool(self, prog, argv, pins=None, on=None):
        '''Run a program; returns (exit status, exception, stdout, stderr)

        *pins* maps paths to kernel inodes (or None): what the kernel's dentry cache says during the
        command. *on* holds handlers that replace the default for some system calls.
        '''
        self.tool_runs += 1
        self.sim.probes['tool-' + prog] = self.sim.probes.get('tool-' + prog, 0) + 1
        p = Program(self.sim, prog, argv)
        p.pins = {MNT.encode(): self.root, **(pins or {})}
        p.on = on or {}
        p.dirs = []
        p.log = []
        p.thread.start()
        try:
            while True:
                req = p.step()
                if req is None:
                    break
                p.res = await self.serve(p, *req)
        finally:
            p.kill()
            for fh, ki in p.dirs:
                with trio.CancelScope(shield=True):
                    try:
                        await self.call('releasedir', fh)
                    except pyfuse3.FUSEError:
                        pass
                ki.opens -= 1
                self.drop_dir(ki)
        status, exc = p.out
        self.sim.ev('tool', prog, status)
        return status, exc, p.stdout.getvalue(), p.stderr.getvalue()

    def drop_dir(self, ki):
        m = self.model.inodes.get(ki.id)
        if m is not None:
            m.opens -= 1
            self.model.drop_if_unused(m)
        ki.busy += 1
        self.unuse(ki)

    async def serve(self, p, name, args):
        p.log.append((name, args))
        try:
            fn = p.on.get(name) or getattr(self, 'sys_' + name)
            return await fn(p, *args), None
        except pyfuse3.FUSEError as exc:
            return None, OSError(exc.errno, os.strerror(exc.errno))
        except OSError as exc:
            return None, exc

    def norm(self, path):
        path = path.rstrip(b'/')
        while b'//' in path:
            path = path.replace(b'//', b'/')
        return path

    async def resolve(self, p, path):
        '''Kernel inode of *path* (no reference is held), or the name of the control file'''
        from s3ql import CTRL_NAME

        path = self.norm(path)
        if path in p.pins:
            ki = p.pins[path]
            if ki is None:
                raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
            return ki
        parent, _, last = path.rpartition(b'/')
        if parent == b'':
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
        pk = await self.resolve(p, parent)
        if isinstance(pk, tuple) or not stat.S_ISDIR(pk.mode):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        if last == CTRL_NAME:
            return ('ctrl', pk)
        if last == b'.':
            return pk
        if last == b'..':
            if parent == MNT.encode():
                return ('outside', pk)
            up = parent.rpartition(b'/')[0]
            if parent in p.pins and up not in p.pins:
                # the directory may have been moved; the kernel goes by its current parent
                for par, _n in sorted(pk.dentries):
                    if par in self.inodes:
                        return self.inodes[par]
            return await self.resolve(p, up)
        pk.busy += 1
        try:
            async with pk.lock:
                ki = await self.lookup_locked(pk, last)
        finally:
            self.unuse(pk)
        if ki is None:
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
        return ki

    async def sys_stat(self, p, path, *a):
        from s3ql import CTRL_INODE, CTRL_NAME

        ki = await self.resolve(p, path)
        if isinstance(ki, tuple):
            if ki[0] == 'outside':
                return mkstat(2, stat.S_IFDIR | 0o755, 0, dev=1)
            attr = await self.call('lookup', ki[1].id, CTRL_NAME, self.ctx)
            self.nursery.start_soon(self._forget_quiet, [(attr.st_ino, 1)])
            if attr.st_ino != CTRL_INODE:
                self.bad('posix', 'control file has inode %d' % attr.st_ino)
            return mkstat(attr.st_ino, attr.st_mode, attr.st_uid)
        ki.busy += 1
        try:
            attr = await self.call('getattr', ki.id, self.ctx)
        finally:
            self.unuse(ki)
        return mkstat(attr.st_ino, attr.st_mode, attr.st_uid)

    sys_lstat = sys_stat

    async def sys_access(self, p, path, *a):
        await self.sys_stat(p, path)
        return True

    async def sys_listdir(self, p, path):
        return [os.fsdecode(n) for n in await self._names(p, path)]

    async def sys_fuse_listdir(self, p, path):
        return [os.fsdecode(n) for n in await self._names(p, path)]

    async def _names(self, p, path):
        ki = await self.resolve(p, path)
        if isinstance(ki, tuple) or not stat.S_ISDIR(ki.mode):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        from .kernel import _ReaddirToken

        names = []
        ki.busy += 1
        try:
            async with ki.lock:
                fh = await self.call('opendir', ki.id, self.ctx)
                pos = 0
                while True:
                    tok = _ReaddirToken(50)
                    await self.call('readdir', fh, pos, tok)
                    for n, attr, nxt in tok.entries:
                        names.append(n)
                        pos = nxt
                        if n not in (b'.', b'..'):
                            await self.call('forget', [(attr.st_ino, 1)])
                    if tok.left:
                        break
                await self.call('releasedir', fh)
        finally:
            self.unuse(ki)
        return names

    async def sys_scandir(self, p, path):
        ki = await self.resolve(p, path)
        if isinstance(ki, tuple) or not stat.S_ISDIR(ki.mode):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        fh = await self.call('opendir', ki.id, self.ctx)
        ki.opens += 1
        m = self.model.inodes.get(ki.id)
        if m is not None:
            m.opens += 1
        p.dirs.append((fh, ki))
        return _Dir(p, fh)

    async def sys_closedir(self, p, fh):
        for ent in p.dirs:
            if ent[0] == fh:
                p.dirs.remove(ent)
                await self.call('releasedir', fh)
                ent[1].opens -= 1
                self.drop_dir(ent[1])

    async def sys_mkdir(self, p, path, mode=0o777, *a):
        raise HarnessError('unexpected mkdir of %r' % path)

    async def sys_fuse_syncfs(self, p, path):
        await self.resolve(p, path)
        await self.write_back()

    async def _ctrl_path(self, p, path):
        ki = await self.resolve(p, path)
        if not isinstance(ki, tuple) or ki[0] != 'ctrl':
            self.bad('tool', '%s used %r as the control file' % (p.prog, path))

    async def sys_fuse_setxattr(self, p, path, name, value):
        await self._ctrl_path(p, path)
        name = os.fsencode(name)
        want = p.on.get('command')
        if want is not None:
            err = await want(p, name, bytes(value))
        else:
            err = await self.ctrl(name, bytes(value))
        p.sent = (name, bytes(value), err)
        if err:
            raise OSError(err, os.strerror(err))

    async def sys_fuse_getxattr(self, p, path, name):
        from s3ql import CTRL_INODE, CTRL_NAME

        await self._ctrl_path(p, path)
        name = os.fsencode(name)
        await self.call('lookup', 1, CTRL_NAME, self.ctx)
        try:
            buf = await self.call('getxattr', CTRL_INODE, name, self.ctx)
        finally:
            self.nursery.start_soon(self._forget_quiet, [(CTRL_INODE, 1)])
        p.got = buf
        return buf

    async def sys_sleep(self, p, secs):
        await trio.sleep(secs)

    # ------------------------------------------------------------------ commands

    async def tree_tool(self, prog, args, name, value, pins, check=None):
        '''Run s3qllock, s3qlrm or s3qlcp; they have to send exactly one command'''
        sent = []

        async def command(p, n, v):
            ok = n == name
            if ok:
                try:
                    ok = ast.literal_eval(v.decode()) == ast.literal_eval(value.decode())
                except (ValueError, SyntaxError, UnicodeDecodeError):
                    ok = False
            if not ok:
                self.bad('tool', '%s %r sent %r %r, expected %r %r'
                         % (prog, args, n, v, name, value))
            if check is not None:
                check()
            err = await self.ctrl(n, v)
            sent.append(err)
            return err

        status, exc, _out, text = await self.tool(prog, args, pins, {'command': command})
        if not sent:
            return None, status, exc, text
        if len(sent) > 1:
            self.bad('tool', '%s %r sent %d commands' % (prog, args, len(sent)))
        self.tool_status(prog, args, sent[0], status, exc, text)
        return sent[0], status, exc, text

    def tool_status(self, prog, args, err, status, exc, text):
        if bool(err) != bool(status):
            self.bad('tool', '%s %r ended with status %d although the file system answered %s'
                     % (prog, args, status, errno.errorcode.get(err, 'success') if err else 'success'),
                     exception=repr(exc), stderr=text[-500:])

    def unsent(self, m):
        '''Acknowledged writes to files below *m* that the file system does not know yet'''
        below = self.subtree(m)
        return [e for e in self.dirty if e.ino in below]

    def check_sent(self, prog, pending, op):
        left = [e for e in pending if not e.done.is_set()]
        if left:
            self.bad('unsynced', '%s of %s: %d bytes at %d of inode %d were written before the '
                     'program was started, but not sent to the file system before its command'
                     % (prog, op['path'], len(left[0].data), left[0].off, left[0].ino))

    async def lock_tool(self, op, ki, m):
        pending = self.unsent(m)
        err, status, exc, text = await self.tree_tool(
            'lock', [self.arg(op['path'])], b'lock', b'%d' % ki.id, {self.pin(op['path']): ki},
            lambda: self.check_sent('s3qllock', pending, op))
        if err is None:
            self.refused_by('s3qllock', op, status, exc, text)
        return err

    def refused_by(self, prog, op, status, exc, text):
        self.bad('tool', '%s of %s ended with status %d and did nothing' % (prog, op['path'], status),
                 exception=repr(exc), stderr=text[-500:])

    async def remove_tool(self, op, pk, ki, cmd):
        up = op['path'].rstrip('/').rpartition('/')[0]
        pins = {self.pin(op['path']): ki, self.pin(up): pk}
        err, status, exc, text = await self.tree_tool('remove', [self.arg(op['path'])], b'rmtree',
                                                      cmd, pins)
        if err is None:
            self.refused_by('s3qlrm', op, status, exc, text)
        return err

    async def cp_tool(self, op, src, sm):
        model = self.model
        made = {}
        sent = []
        pins = {self.pin(op['path']): src}
        args = [self.arg(op['path']), self.arg(op['to'])]
        pending = self.unsent(sm)
        before = await self.target_state(op['to'])

        async def mkdir(p, path, *a):
            if self.norm(path) != self.pin(op['to']) or made:
                self.bad('tool', 's3qlcp %r created the directory %r' % (args, path))
            err = await self.make({'op': 'mkdir', 'path': op['to']})
            if err:
                made['err'] = err
                raise OSError(err, os.strerror(err))
            dst = await self.at({'path': op['to']})
            if isinstance(dst, int):
                made['err'] = dst
                return
            made['dst'] = dst
            p.pins[self.norm(path)] = dst

        async def command(p, n, v):
            dst = made.get('dst')
            if dst is None:
                self.bad('tool', 's3qlcp %r sent %r %r without a target' % (args, n, v))
            if n != b'copy' or ast.literal_eval(v.decode()) != (src.id, dst.id):
                self.bad('tool', 's3qlcp %r sent %r %r, source and target are inodes %d and %d'
                         % (args, n, v, src.id, dst.id))
            dm = model.inodes.get(dst.id)
            if dm is None or dm.loose or dm.children or not dm.is_dir():
                sent.append(errno.EBUSY)
                return errno.EBUSY
            self.check_sent('s3qlcp', pending, op)
            sent.append(await self._copy(op, src, sm, dst, dm))
            return sent[-1]

        try:
            status, exc, _out, text = await self.tool('cp', args, pins,
                                                      {'mkdir': mkdir, 'command': command})
        finally:
            if 'dst' in made:
                self.unuse(made['dst'])
        if len(sent) == 1:
            self.tool_status('s3qlcp', args, sent[0], status, exc, text)
            return sent[0]
        after = await self.target_state(op['to'])
        if sent or not status or ('err' not in made and before == after and before[0]):
            self.bad('tool', 's3qlcp %r sent %d commands and ended with status %d'
                     % (args, len(sent), status), exception=repr(exc), stderr=text[-500:])
        return made.get('err') or errno.EEXIST

    async def target_state(self, path):
        '''(can be created, version of the parent directory)'''
        pk, name = await self.walk_parent(path)
        if isinstance(pk, int):
            return False, None
        with self.use(pk):
            pk.busy -= 1
            m = self.model.inodes.get(pk.id)
            if m is None or m.loose or m.nlink == 0:
                return False, None
            return name not in m.children, (pk.id, m.mod_seq)

    def arg(self, path):
        return os.fsdecode(MNT.encode() + b'/' + path.encode('latin1'))

    def pin(self, path):
        return self.norm(MNT.encode() + b'/' + path.encode('latin1'))

    async def ctrl_tool(self, name, value):
        '''s3qlctrl'''
        args = {b's3ql_flushcache!': ['flushcache', MNT], b's3ql_dropcache!': ['dropcache', MNT],
                b'upload-meta': ['backup-metadata', MNT]}.get(name)
        if name == b'cachesize' and int(value) % 1024 == 0:
            args = ['cachesize', MNT, str(int(value) // 1024)]
        if args is None:
            return await self.ctrl(name, value)
        sent = []

        async def command(p, n, v):
            if n != name or name == b'cachesize' and int(v) != int(value):
                self.bad('tool', 's3qlctrl %r sent %r %r' % (args, n, v))
            sent.append(await self.ctrl(n, v))
            return sent[-1]

        status, exc, _out, text = await self.tool('ctrl', args, on={'command': command})
        if len(sent) != 1:
            self.bad('tool', 's3qlctrl %r sent %d commands and ended with status %d'
                     % (args, len(sent), status), exception=repr(exc), stderr=text[-500:])
        self.tool_status('s3qlctrl', args, sent[0], status, exc, text)
        return sent[0]

    # ------------------------------------------------------------------ umount.s3ql

    def in_use(self, idx):
        return bool(self.fds) or any(i != idx for i in self.current)

    async def op_umount(self, op):
        '''umount.s3ql, which ends when the mount process has ended'''
        idx = op['client']
        count = self.sim.probes
        busy = []
        asked = []

        async def run_cmd(p, cmd):
            prog = os.path.basename(cmd[0])
            await self.sim.pause(self.sim.rng_client, [0.0, 0.01, 0.3])
            used = self.in_use(idx)
            if prog == 'fuser':
                if used:
                    busy.append(prog)
                return 0 if used else 1
            if prog not in ('umount', 'fusermount', 'fusermount3') or cmd[-1] != MNT:
                self.bad('tool', 'umount.s3ql ran %r' % (cmd,))
            asked.append(cmd)
            if {'-l', '-z'} & set(cmd):
                if not op.get('lazy'):
                    self.bad('umount', 'umount.s3ql detaches the file system, which was not asked for')
                self.lazy = True
                self.sim.ev('detached')
                return 0
            if op.get('lazy'):
                self.bad('umount', 'umount.s3ql --lazy ran %r' % (cmd,))
            if used:
                busy.append(prog)
                return 32
            self.detached = True
            self.sim.ev('detached')
            return 0

        async def kill(p, pid, sig):
            if pid != os.getpid() or sig:
                self.bad('tool', 'umount.s3ql sent signal %d to process %d' % (sig, pid))

        async def cmdline(p, pid):
            if pid != str(os.getpid()):
                self.bad('tool', 'umount.s3ql looked at process %s' % pid)
            return CMDLINE

        if self.lazy:
            return errno.EINVAL  # there is nothing mounted any more
        p = Program(self.sim, 'umount', ['--lazy', MNT] if op.get('lazy') else [MNT])
        p.pins, p.dirs, p.log = {MNT.encode(): self.root}, [], []
        p.on = {'run': run_cmd, 'kill': kill, 'cmdline': cmdline}
        p.thread.start()
        while True:
            req = p.step()
            if req is None:
                break
            p.res = await self.serve(p, *req)
            if self.lazy and 'lazy' not in count:
                count['lazy'] = 1
                count['lazy, in use'] = int(self.in_use(idx))
            if self.detached:
                p.reuse = op.get('reuse')
                self.umount_prog = p
                count['tool-umount'] = count.get('tool-umount', 0) + 1
                trio.lowlevel.spawn_system_task(self._umount_wait, p)
                return 0
        status, exc = p.out
        if op.get('lazy'):
            if status or not self.lazy:
                self.bad('umount', 'umount.s3ql --lazy ended with status %s' % status,
                         exception=repr(exc), stderr=p.stderr.getvalue()[-500:])
            return 0
        if not status:
            self.bad('umount', 'umount.s3ql ended with status 0, but the file system is mounted',
                     calls=str(p.log)[-1000:])
        if not busy:
            self.bad('umount', 'umount.s3ql ended with status %d, although nothing used the file '
                     'system' % status, exception=repr(exc), stderr=p.stderr.getvalue()[-500:])
        if exc is not None:
            self.bad('umount', 'umount.s3ql ended with %r' % exc)
        count['umount refused'] = count.get('umount refused', 0) + 1
        return errno.EBUSY

    async def _umount_wait(self, p):
        while True:
            req = p.step()
            if req is None:
                self.bad('umount', 'umount.s3ql ended with status %s before the mount process'
                         % p.out[0], exception=repr(p.out[1]))
                return
            p.req_left = req
            p.res = await self.serve(p, *req)
            p.req_left = None
            p.waits = getattr(p, 'waits', 0) + 1

    def after_exit(self):
        '''The mount process is gone; umount.s3ql has to notice that'''
        p, self.umount_prog = self.umount_prog, None
        if p is None or p.out is not None:
            return
        req = p.req_left
        calls = []
        secs = 0
        for _ in range(100):
            name, args = req
            calls.append(name)
            val, exc = None, None
            if name == 'sleep':
                secs += args[0]
            elif name == 'kill':
                if not p.reuse:
                    exc = ProcessLookupError(errno.ESRCH, 'No such process')
                elif p.reuse == 'eperm':
                    exc = PermissionError(errno.EPERM, 'Operation not permitted')
            elif name == 'cmdline':
                if p.reuse == 'other':
                    val = 'bash\0'
                elif p.reuse == 'zombie':
                    val = ''
                else:
                    exc = FileNotFoundError(errno.ENOENT, 'No such file or directory')
            p.res = (val, exc)
            req = p.step()
            if req is None:
                break
        else:
            self.bad('umount', 'umount.s3ql still waits %.1f s after the mount process has ended '
                     '(process id: %s); its last calls: %s' % (secs, p.reuse or 'unused', calls[-4:]))
        if p.out[0]:
            self.bad('umount', 'umount.s3ql ended with status %d after a clean unmount' % p.out[0],
                     exception=repr(p.out[1]), stderr=p.stderr.getvalue()[-500:])
        if secs > 5:
            self.bad('umount', 'umount.s3ql noticed after %.1f s that the mount process has ended'
                     % secs)

    LABELS = ('Directory entries', 'Data objects', 'Inodes', 'Total data size',
              'After de-duplication', 'After compression', 'Database size', 'Cache size',
              'Cache size', 'Cache size (dirty)', 'Cache size (dirty)', 'Queued object removals')

    async def stat_tool(self):
        '''s3qlstat prints what the file system reports'''
        import re
        import struct

        got = []
        real = self.sys_fuse_getxattr

        async def getxattr(p, path, name):
            got.append(await real(p, path, name))
            return got[-1]

        status, exc, out, text = await self.tool('statfs', [MNT, '--raw'],
                                                 on={'fuse_getxattr': getxattr})
        if status or len(got) != 1:
            self.bad('tool', 's3qlstat ended with status %d' % status, exception=repr(exc),
                     stderr=text[-500:])
        want = struct.unpack('Q' * 12, got[0])
        lines = dict(l.split(':', 1) for l in out.splitlines() if ':' in l)
        seen = {}
        for label, val in zip(self.LABELS, want):
            nums = re.findall(r'(\d+) (?:bytes|entries)|(\d+)', lines.get(label, ''))
            nums = [int(a or b) for a, b in nums]
            if val not in nums:
                self.bad('tool', 's3qlstat prints %r for %r, the file system reports %d'
                         % (lines.get(label), label, val), out=out)
            seen[label] = nums
        return got[0]

