"""Observed files: while active, unbuffered files opened below `root` report their transfers to callbacks."""
import builtins, contextlib, io, os, pathlib

_orig_open = io.open


class ObservedFile(io.FileIO):
    """Raw file whose transfers can be observed, shortened or made to fail."""
    _hooks = None
    _path = None

    def readinto(self, b):
        h = self._hooks
        mv = memoryview(b).cast("B")
        n = len(mv)
        if h.on_read:
            n = h.on_read(self, self.tell(), n)
        r = super().readinto(mv[:n])
        if h.after_read:
            h.after_read(self, r)
        return r

    def read(self, size=-1):
        h = self._hooks
        if size is None or size < 0:
            return super().read(size)
        if h.on_read:
            size = h.on_read(self, self.tell(), size)
        r = super().read(size)
        if h.after_read:
            h.after_read(self, len(r))
        return r

    def write(self, b):
        h = self._hooks
        mv = memoryview(b).cast("B")
        n = len(mv)
        if h.on_write:
            n = h.on_write(self, self.tell(), n)
        r = super().write(mv[:n])
        if h.after_write:
            h.after_write(self, r)
        return r

    def close(self):
        h = self._hooks
        was = self.closed
        if not was and h is not None and h.on_close:
            try:
                h.on_close(self)
            finally:
                super().close()
        else:
            super().close()


class Hooks:
    def __init__(self, on_read=None, after_read=None, on_write=None, after_write=None, on_open=None, on_close=None):
        self.on_read, self.after_read, self.on_write, self.after_write, self.on_open, self.on_close = on_read, after_read, on_write, after_write, on_open, on_close


@contextlib.contextmanager
def observed(root, hooks):
    root = os.path.realpath(root) + os.sep

    def opener(file, mode="r", buffering=-1, *a, **kw):
        try:
            path = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ""
        except TypeError:
            path = ""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.startswith(root) and "b" in mode and path.endswith(".safetensors"):
            if hooks.on_open:
                hooks.on_open(path, mode)
            f = ObservedFile(file, mode.replace("b", ""))
            f._hooks, f._path = hooks, path
            if buffering == 0:
                return f
            return io.BufferedRandom(f) if "+" in mode else io.BufferedReader(f) if "r" in mode else io.BufferedWriter(f)
        return _orig_open(file, mode, buffering, *a, **kw)

    io.open = builtins.open = opener
    try:
        yield
    finally:
        io.open = builtins.open = _orig_open
