"""A simulated disk for reading.

The files exist in a scratch directory (made and removed by the run, which works inside it with relative
paths), so existence, size and modification time can be asked for; the modification times are simulated.
Everything read from them goes through a simulated device: the seams are `open` (builtins.open, io.open,
os.fdopen, pathlib) and os.open/os.read/os.close. The real BufferedReader and TextIOWrapper run above it.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

REAL_OPEN = builtins.open
REAL_OS = (os.open, os.read, os.close)


class Device(io.RawIOBase):
    """A raw file whose every read is decided by the plan."""

    def __init__(self, fs, path, data, fault, fd=None, retries=True):
        self.fs, self.path, self.data, self.fault, self.fd = fs, path, data, fault, fd
        self.retries = retries      # whoever reads retries an interrupted call, as CPython's file objects do
        self.pos = 0
        self.reads = 0
        fs.open_now += 1
        fs.opened += 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + (0, self.pos, len(self.data))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        if self.closed:
            raise ValueError('read from closed device')
        self.reads += 1
        self.fs.reads += 1
        f = self.fault
        if self.fs.during:
            self.fs.during[0] -= 1
            if self.fs.during[0] == 0:
                run, self.fs.during = self.fs.during[1], None
                run()
        if f.get('kill_read') and f['kill_read'][0] == self.reads:
            self.fs.hit('kill-' + f['kill_read'][1])
            raise getattr(builtins, f['kill_read'][1])('simulated')
        if self.retries and f.get('eintr') == self.reads:
            self.fs.hit('interrupted-read')
            raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR), self.path)
        if f.get('eio_read') == self.reads:
            self.fs.hit('EIO')
            raise OSError(errno.EIO, os.strerror(errno.EIO), self.path)
        n = len(b)
        chunks = f.get('chunks')
        if chunks:
            c = chunks[(self.reads - 1) % len(chunks)]
            if c < n:
                n = c
                self.fs.hit('short-read')
        piece = self.data[self.pos:self.pos + n]
        b[:len(piece)] = piece
        self.pos += len(piece)
        return len(piece)

    def close(self):
        if not self.closed:
            self.fs.open_now -= 1
            if self.fd is not None:
                self.fs.fds.pop(self.fd, None)
                REAL_OS[2](self.fd)
        io.RawIOBase.close(self)


class SimFS:
    def __init__(self, on_fault):
        self.files = {}
        self.faults = {}
        self.fds = {}
        self.open_now = self.opened = self.reads = 0
        self.during = None      # [n, action]: the action runs inside the n-th read from now on
        self.hit = on_fault

    def put(self, name, data, fault, mtime):
        """The file now has these contents."""
        self.files[name] = data
        self.faults[name] = fault
        with REAL_OPEN(os.path.join(self.dir, name), 'wb') as f:
            f.write(data)
        os.utime(os.path.join(self.dir, name), ns=(mtime, mtime))

    def name(self, file):
        """The simulated file meant, or None."""
        try:
            path = os.fsdecode(os.fspath(file))
        except TypeError:
            return None
        path = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        return os.path.basename(path) if os.path.dirname(path) == self.dir else None

    def check(self, name, writing):
        if writing:
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), name)
        fault = self.faults.get(name, {})
        if fault.get('open'):
            code = getattr(errno, fault['open'])
            self.hit(fault['open'])
            raise OSError(code, os.strerror(code), name)
        if name not in self.files:
            self.hit('ENOENT')
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        return fault

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            dev = self.fds.get(file)
            if dev is None:
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            dev.retries = buffering != 0
        else:
            name = self.name(file)
            if name is None:
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            fault = self.check(name, any(c in mode for c in 'wax+'))
            dev = Device(self, name, self.files[name], fault, retries=buffering != 0)
        if 'b' in mode:
            return dev if buffering == 0 else io.BufferedReader(dev, dev.fault.get('buf', 8192))
        return io.TextIOWrapper(io.BufferedReader(dev, dev.fault.get('buf', 8192)), encoding or 'utf-8', errors, newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        name = self.name(path) if dir_fd is None else None
        if name is None:
            return REAL_OS[0](path, flags, mode, dir_fd=dir_fd)
        fault = self.check(name, flags & (os.O_WRONLY | os.O_RDWR))
        fd = REAL_OS[0](path, flags, mode)
        self.fds[fd] = Device(self, name, self.files[name], fault, fd, retries=False)
        return fd

    def os_read(self, fd, n):
        dev = self.fds.get(fd)
        if dev is None:
            return REAL_OS[1](fd, n)
        b = bytearray(n)
        return bytes(b[:dev.readinto(b)])

    def os_close(self, fd):
        dev = self.fds.get(fd)
        return dev.close() if dev is not None else REAL_OS[2](fd)

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='verif-files-'))
        self.back = os.getcwd()
        os.chdir(self.dir)
        builtins.open = io.open = self.open
        os.open, os.read, os.close = self.os_open, self.os_read, self.os_close
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = REAL_OPEN
        os.open, os.read, os.close = REAL_OS
        os.chdir(self.back)
        shutil.rmtree(self.dir, ignore_errors=True)
