"""
A disk that misbehaves on cue. Files are real and live in a scratch directory; what is
simulated is how opening and reading them goes. `Disk` replaces `open` (and `os.open`,
`os.read`) for the duration of a call under test: the file object the code gets is python's own
buffered text stack on top of a raw file whose every read obeys the fault plan.
"""
import builtins
import errno
import io
import os

ERRNOS = {'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EPERM': errno.EPERM, 'EMFILE': errno.EMFILE,
          'ENFILE': errno.ENFILE, 'ENOMEM': errno.ENOMEM, 'ELOOP': errno.ELOOP,
          'ESTALE': errno.ESTALE, 'ETIMEDOUT': errno.ETIMEDOUT, 'ENOENT': errno.ENOENT,
          'ENXIO': errno.ENXIO, 'EISDIR': errno.EISDIR, 'ENOTDIR': errno.ENOTDIR}


def oserror(name, path):
    e = ERRNOS[name]
    return OSError(e, os.strerror(e), os.fspath(path) if not isinstance(path, int) else None)


class SimFile(io.FileIO):
    """a raw file: at most so many bytes at a time, and perhaps an error at some offset"""

    def __init__(self, disk, path, mode, opener=None, closefd=True):
        super().__init__(path, mode, closefd=closefd, opener=opener)
        self.disk, self.at, self.calls = disk, 0, 0

    def _one(self, n):
        """one read system call"""
        d = self.disk
        k = d.reads
        d.reads += 1
        d.clock += 100 + d.delay(k)
        plan = d.plan
        if plan.get('replace_at') == k and d.on_replace:
            d.fire('replaced while being read')
            d.on_replace()
        if k in plan.get('eintr', ()):
            d.fire('interrupted read (EINTR)')
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        fail = plan.get('read_error')
        limit = None
        if fail is not None and not d.failed:
            name, off = fail
            size = os.fstat(self.fileno()).st_size
            off = min(off, size) if isinstance(off, int) else int(off * size)
            if self.tell() >= off:
                d.failed = True
                d.fire('read fails: ' + name)
                if name == 'memory':
                    raise MemoryError('simulated')
                raise oserror(name, self.name)
            limit = off - self.tell()
        chunk = d.chunk(k)
        if chunk is not None:
            if n < 0 or chunk < n:
                d.fire('short read')
            n = chunk if n < 0 else min(n, chunk)
        if limit is not None:
            n = limit if n < 0 else min(n, limit)
        if n < 0:
            n = 1 << 16
        d.clock += n
        return super().read(n)

    def readinto(self, b):
        data = self._one(len(b))
        b[:len(data)] = data
        return len(data)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return self._one(n)

    def readall(self):
        # what the C implementation does with the system calls
        out = []
        while True:
            try:
                data = self._one(1 << 16)
            except InterruptedError:
                continue
            if not data:
                return b''.join(out)
            out.append(data)


class Disk:
    """
    plan: open_error: [errno name, how many opens fail], chunks: sizes of successive reads,
    eintr: numbers of the reads that are interrupted, read_error: [errno name, offset or
    fraction], delays: per read, replace_at: the read before which the file is replaced
    """

    def __init__(self, root, plan, log=None, on_replace=None):
        self.root = os.path.realpath(root)
        self.plan = plan or {}
        self.reads = self.opens = self.clock = 0
        self.fired = {}
        self.failed = False
        self.errors = []              # what was reported to the program
        self.files = []
        self.fds = {}
        self.on_replace = on_replace
        self.extra = ()

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def chunk(self, k):
        c = self.plan.get('chunks')
        return c[k % len(c)] if c else None

    def delay(self, k):
        c = self.plan.get('delays')
        return c[k % len(c)] if c else 0

    def watches(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fsdecode(path))
        except (TypeError, ValueError):
            return False
        return p.startswith(self.root + os.sep) or any(p.startswith(x) for x in self.extra)

    def _opening(self, path):
        self.opens += 1
        self.clock += 50
        fail = self.plan.get('open_error')
        if fail and self.opens <= fail[1]:
            self.fire('open fails: ' + fail[0])
            raise oserror(fail[0], path)

    def __enter__(self):
        self.saved = (builtins.open, io.open, os.open, os.read, os.close)
        real_open, _, real_os_open, real_read, real_close = self.saved

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            if not self.watches(file) or any(c in mode for c in 'wax+'):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd,
                                 opener)
            if not isinstance(file, int):
                self._opening(file)
            raw = SimFile(self, file, 'r', opener=opener, closefd=closefd)
            self.files.append(raw)
            if 'b' in mode:
                if buffering == 0:
                    return raw
                return io.BufferedReader(raw, buffering if buffering > 1 else
                                         io.DEFAULT_BUFFER_SIZE)
            return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline,
                                    line_buffering=buffering == 1)

        def sim_os_open(path, flags, *a, **k):
            if not self.watches(path) or flags & (os.O_WRONLY | os.O_RDWR):
                return real_os_open(path, flags, *a, **k)
            self._opening(path)
            fd = real_os_open(path, flags, *a, **k)
            self.fds[fd] = SimFile(self, fd, 'r', closefd=False)
            return fd

        def sim_read(fd, n):
            f = self.fds.get(fd)
            return real_read(fd, n) if f is None else f._one(n)

        def sim_close(fd):
            self.fds.pop(fd, None)
            return real_close(fd)

        builtins.open = io.open = sim_open
        os.open, os.read, os.close = sim_os_open, sim_read, sim_close
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, os.open, os.read, os.close = self.saved
        return False


def open_fds():
    """descriptors of regular files this process has open"""
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink(f'/proc/self/fd/{n}')
        except OSError:
            continue
        if t.startswith('/') and not t.startswith(('/dev/', '/proc/')):
            out[int(n)] = t
    return out
