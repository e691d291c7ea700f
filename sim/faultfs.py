"""A disk with faults, behind the open() seam.

Files under the watched directory are opened through FaultRaw, a raw stream
that splits, limits, fails or kills I/O at a planned byte.  The buffering and
text layers above it are the interpreter's own.  Everything else is opened
normally.  A plan is a dict:

  write: {kind: 'enospc'|'eio'|'crash', at: byte}      on written files
         {kind: 'close'}                               close() fails
         {kind: 'open_eacces'|'open_eio'|'open_crash'}
  chunk: n   reads and writes move at most n bytes (legal, must be harmless)
  read:  {kind: 'eio'|'crash', at: byte}
         {kind: 'open_eio'|'open_enoent'}
  target: substring of the file name the read/write faults apply to
"""
import builtins
import errno
import io
import os


class FS(object):
    def __init__(self, root, plan, crash):
        self.root = os.path.realpath(root) + os.sep
        self.plan = plan or {}
        self.crash = crash            # exception type meaning "killed"
        self.dead = False
        self.fired = []               # fault kinds that really happened
        self.written = 0
        self.opened = []
        self.harmless = 0

    def mine(self, path):
        return os.path.realpath(path).startswith(self.root)

    def hit(self, kind):
        self.fired.append(kind)


class FaultRaw(io.RawIOBase):
    def __init__(self, fs, raw, path):
        super().__init__()
        self.fs, self.raw, self.path = fs, raw, path
        self.pos = 0
        t = fs.plan.get('target', '')
        self.on = t in os.path.basename(path)
        self.name = path
        self.mode = raw.mode

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return self.raw.seekable()

    def seek(self, *a):
        self.pos = self.raw.seek(*a)
        return self.pos

    def tell(self):
        return self.raw.tell()

    def truncate(self, size=None):
        return self.raw.truncate(size)

    def fileno(self):
        # no descriptor: bytes must pass through here
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def readinto(self, b):
        fs = self.fs
        n = len(b)
        c = fs.plan.get('chunk')
        if c and n > c:
            n = c
            fs.harmless += 1
        f = fs.plan.get('read')
        if f and self.on and 'at' in f:
            left = f['at'] - self.pos
            if left <= 0:
                fs.hit('read ' + f['kind'])
                if f['kind'] == 'crash':
                    fs.dead = True
                    raise fs.crash()
                raise OSError(errno.EIO, 'injected read error', self.path)
            n = min(n, left)
        data = self.raw.read(n)
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        fs = self.fs
        if fs.dead:
            return len(b)             # the process is gone, so are its bytes
        b = bytes(b)
        c = fs.plan.get('chunk')
        if c and len(b) > c:
            b = b[:c]
            fs.harmless += 1
        f = fs.plan.get('write')
        if f and self.on and 'at' in f:
            left = f['at'] - self.pos
            if left <= 0:
                fs.hit('write ' + f['kind'])
                if f['kind'] == 'crash':
                    fs.dead = True
                    raise fs.crash()
                raise OSError(errno.ENOSPC if f['kind'] == 'enospc'
                              else errno.EIO, 'injected write error',
                              self.path)
            b = b[:left]
        n = self.raw.write(b)
        self.pos += n
        fs.written += n
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.raw.close()
        fs = self.fs
        f = fs.plan.get('write')
        if f and self.on and f['kind'] == 'close' and not fs.dead and \
                self.raw_mode_w and 'write close' not in fs.fired:
            fs.hit('write close')
            raise OSError(errno.EIO, 'injected close error', self.path)

    @property
    def raw_mode_w(self):
        return 'r' not in self.mode or '+' in self.mode


class patched(object):
    """context manager: route opens below fs.root through the fault layer"""

    def __init__(self, fs):
        self.fs = fs

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        fs = self.fs
        try:
            path = os.fspath(file)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        except TypeError:
            path = None
        if path is None or not fs.mine(path):
            return self.real(file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
        w = any(c in mode for c in 'wax+')
        on = fs.plan.get('target', '') in os.path.basename(path)
        fs.opened.append((os.path.basename(path), mode))
        f = fs.plan.get('write' if w else 'read')
        if f and on and f['kind'].startswith('open_') and not fs.dead:
            fs.hit(('write ' if w else 'read ') + f['kind'])
            if f['kind'] == 'open_crash':
                fs.dead = True
                raise fs.crash()
            e = getattr(errno, f['kind'][5:].upper())
            raise OSError(e, 'injected ' + f['kind'], path)
        if w and fs.dead:
            raise fs.crash()
        raw = FaultRaw(fs, io.FileIO(path, mode.replace('t', '')
                                     .replace('b', '').replace('U', ''),
                                     opener=opener), path)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else fs.plan.get(
            'buffer', io.DEFAULT_BUFFER_SIZE)
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text.mode = mode
        return text

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self.fs

    def __exit__(self, *a):
        builtins.open = io.open = self.real
        return False
