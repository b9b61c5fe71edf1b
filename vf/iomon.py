"""Monitor of HDF5 traffic: opens, closes, writes and data reads; optional fault injection."""
import contextlib

import h5py


class Fault(OSError):
    pass


class IOMonitor:
    def __init__(self):
        self.reads = []  # dataset path of every data read
        self.opens = []  # (path, mode)
        self.writes = []
        self.live = []  # file objects opened while monitoring
        self.fail_at = None  # index of the data read that must fail
        self.fail_opens_at = None
        self.count = 0

    def open_now(self):
        return [f for f in self.live if f.id.valid]

    @contextlib.contextmanager
    def watch(self):
        orig = {
            "get": h5py.Dataset.__getitem__, "rd": h5py.Dataset.read_direct,
            "init": h5py.File.__init__, "set": h5py.Dataset.__setitem__,
        }
        mon = self

        def touch(ds):
            mon.reads.append(ds.name)
            k = mon.count
            mon.count += 1
            if mon.fail_at is not None and k == mon.fail_at:
                raise Fault(f"injected read failure on {ds.name}")

        def getitem(self, args, *a, **kw):
            touch(self)
            return orig["get"](self, args, *a, **kw)

        def read_direct(self, *a, **kw):
            touch(self)
            return orig["rd"](self, *a, **kw)

        def setitem(self, *a, **kw):
            mon.writes.append(self.name)
            return orig["set"](self, *a, **kw)

        def init(self, name, mode="r", *a, **kw):
            if isinstance(name, (str, bytes)) or hasattr(name, "__fspath__"):
                mon.opens.append((str(name), mode))
                if mon.fail_opens_at is not None and len(mon.opens) - 1 == mon.fail_opens_at:
                    raise Fault("injected open failure")
                orig["init"](self, name, mode, *a, **kw)
                mon.live.append(self)
                return
            orig["init"](self, name, mode, *a, **kw)

        h5py.Dataset.__getitem__ = getitem
        h5py.Dataset.read_direct = read_direct
        h5py.Dataset.__setitem__ = setitem
        h5py.File.__init__ = init
        try:
            yield self
        finally:
            h5py.Dataset.__getitem__ = orig["get"]
            h5py.Dataset.read_direct = orig["rd"]
            h5py.Dataset.__setitem__ = orig["set"]
            h5py.File.__init__ = orig["init"]
