"""
Offline stand-in for an hdfstream server: the real hdfstream client classes talk to a
connection object that serves a local file and logs every request.
"""
import h5py
import hdfstream
import numpy as np
from hdfstream.remote_file import RemoteFile


class LocalConnection:
    def __init__(self, path, inline_limit=0, max_depth=5):
        self.path = str(path)
        self.log = []  # (kind, object, descriptor)
        self.inline_limit = inline_limit

    def _attrs(self, obj):
        out = {}
        for k, v in obj.attrs.items():
            out[k] = np.array(v) if isinstance(v, (np.ndarray, np.generic)) else v
        return out

    def _describe(self, f, name, depth):
        obj = f[name] if name != "/" else f["/"]
        if isinstance(obj, h5py.Dataset):
            d = {"hdf5_object": "dataset", "attributes": self._attrs(obj),
                 "type": obj.dtype.str if obj.dtype.kind != "O" else "O",
                 "kind": obj.dtype.kind, "shape": list(obj.shape)}
            if obj.dtype.kind in "SO" or obj.nbytes <= self.inline_limit:
                d["data"] = obj[...]
            return d
        d = {"hdf5_object": "group", "attributes": self._attrs(obj)}
        if depth > 0:
            members = {}
            for k in obj.keys():
                link = obj.get(k, getlink=True)
                if isinstance(link, h5py.SoftLink):
                    members[k] = {"hdf5_object": "soft_link", "target": link.path}
                else:
                    members[k] = self._describe(f, f"{name.rstrip('/')}/{k}", depth - 1)
            d["members"] = members
        else:
            d["members"] = {k: None for k in obj.keys()}
        return d

    def request_path(self, path):
        return {"type": "application/x-hdf5", "size": 1, "last_modified": 0}

    def request_object(self, path, name, data_size_limit, max_depth):
        self.log.append(("object", name, None))
        with h5py.File(self.path, "r") as f:
            return self._describe(f, name, max_depth)

    def _slice(self, name, desc):
        starts, counts = desc[0]
        if not np.ndim(starts):
            starts, counts = [starts], [counts]
        starts, counts = list(starts), list(counts)
        for i in range(1, len(starts)):
            # protocol: ascending, non-overlapping
            if starts[i] < starts[i - 1] + counts[i - 1]:
                raise RuntimeError("server: slices not ascending / overlapping")
        with h5py.File(self.path, "r") as f:
            full = f[name][...]
        idx = [np.arange(s, s + n) for s, n in zip(starts, counts)]
        out = full[np.concatenate(idx).astype(int)] if idx else full[:0]
        for ax, (s, n) in enumerate(desc[1:], start=1):
            out = np.take(out, range(s, s + n), axis=ax)
        return out

    def request_slice(self, path, name, desc):
        self.log.append(("slice", name, desc))
        return self._slice(name, desc)

    def request_slice_into(self, path, name, desc, destination):
        self.log.append(("slice", name, desc))
        data = self._slice(name, desc)
        if data.dtype != destination.dtype or data.size != destination.size:
            raise RuntimeError(
                f"server: data type/size mismatch {data.dtype}/{data.shape} vs "
                f"{destination.dtype}/{destination.shape}")
        if not destination.flags["C_CONTIGUOUS"]:
            raise RuntimeError("client buffer must be contiguous")
        destination[...] = data.reshape(destination.shape)


def open_remote(path, inline_limit=0):
    conn = LocalConnection(path, inline_limit)
    return RemoteFile(conn, str(path)), conn
