"""A small simulated disk behind builtins.open, with faults chosen by the plan."""
import errno, io, os


class InjectedIO(OSError):
    """Marks I/O errors the simulator raised."""


def io_error(code):
    """The exception python raises for this error number (FileNotFoundError, PermissionError ...), marked as injected."""
    base = type(OSError(code, ""))
    cls = InjectedIO if base is OSError else type("Injected" + base.__name__, (InjectedIO, base), {})
    return cls(code, os.strerror(code))


class Raw(io.RawIOBase):
    """One open file.  fault: dict(open=errno | read=[byte, errno] | write=[byte, errno] | chunk=n | close=errno)."""

    def __init__(self, disk, path, mode, fault):
        self.disk, self.path, self.fault = disk, path, fault or {}
        self.pos = 0
        self.rd, self.wr = "r" in mode or "+" in mode, any(c in mode for c in "wax+")
        if "w" in mode:
            disk.files[path] = bytearray()
        elif "x" in mode:
            if path in disk.files:
                raise FileExistsError(errno.EEXIST, "exists", path)
            disk.files[path] = bytearray()
        elif "a" in mode:
            disk.files.setdefault(path, bytearray())
        if path not in disk.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        self.buf = disk.files[path]
        if "a" in mode:
            self.pos = len(self.buf)

    def readable(self):
        return self.rd

    def writable(self):
        return self.wr

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.buf) + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.buf[size:]
        return size

    def readinto(self, b):
        self.disk.tick(self, "read")
        n = len(b)
        f = self.fault.get("read")
        if f:
            if self.pos >= f[0]:
                self.disk.hit("read error")
                raise io_error(f[1])
            n = min(n, f[0] - self.pos)
        c = self.fault.get("chunk")
        if c and n > c:
            n = c
            self.disk.hit("short read")
        d = bytes(self.buf[self.pos:self.pos + n])
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        self.disk.tick(self, "write")
        b = bytes(b)
        n = len(b)
        f = self.fault.get("write")
        if f:
            if self.pos >= f[0]:
                self.disk.hit("write error")
                raise io_error(f[1])
            n = min(n, f[0] - self.pos)
        c = self.fault.get("chunk")
        if c and n > c:
            n = c
            self.disk.hit("short write")
        self.buf[self.pos:self.pos + n] = b[:n]
        self.pos += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            c = self.fault.get("close")
            if c and self.wr:
                self.disk.hit("error on close")
                raise io_error(c)


class Disk:
    """files: path -> bytearray; owns every path for which claims(path) is true."""

    def __init__(self, claims, stats, fault_for=lambda: None, on_tick=None):
        self.files, self.claims, self.stats, self.fault_for, self.on_tick = {}, claims, stats, fault_for, on_tick
        self.opens = 0
        self.handles = []

    def hit(self, what):
        self.stats["fault:" + what] += 1

    def tick(self, raw, what):
        if self.on_tick:
            self.on_tick(raw, what)

    def hook(self, real_open, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return None
        path = os.path.realpath(os.fspath(file))
        if not self.claims(path):
            return None
        self.opens += 1
        f = self.fault_for() or {}
        if f.get("open"):
            self.hit("open error")
            raise io_error(f["open"])
        raw = Raw(self, path, mode, f)
        self.handles.append(raw)
        binary = "b" in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if "+" in mode:
            b = io.BufferedRandom(raw, size)
        elif raw.wr:
            b = io.BufferedWriter(raw, size)
        else:
            b = io.BufferedReader(raw, size)
        if binary:
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t
