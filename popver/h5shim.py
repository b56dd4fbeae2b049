"""contract of h5py: a tree of groups and datasets that keeps what is stored."""
import types

import z3

from .core import ctx, Sym, mk, to_term, Unsupported, is_special
from . import arr as A
from .pylist import PVList


class _Node:
    def __init__(self, kind):
        self.kind = kind          # "group" or "data"
        self.items = {}
        self.attrs = {}
        self.value = None


class _Handle:
    def __init__(self, mode):
        self.mode, self.open = mode, True


def _parts(path):
    if isinstance(path, bytes):
        path = path.decode()
    if not isinstance(path, str):
        raise TypeError("Accessing a group is done with bytes or str, not %s" % type(path))
    return [p for p in path.split("/") if p and p != "."]


def _snap(v, attr=False):
    """the value as HDF5 keeps it"""
    if isinstance(v, Ghost):
        return v
    if isinstance(v, Dataset):
        v = v[()]
    if isinstance(v, (list, tuple)):
        v = A.asarray(v)
    if isinstance(v, A.ndarray):
        if v._buf.objs is not None:
            o = v._buf.objs
            if any(isinstance(x, str) for x in o):
                raise TypeError("No conversion path for dtype")
            return list(o)
        if v._zd:
            return mk(v.el(z3.IntVal(0)), True)
        return A.from_elem(v._n, v.kind, v.snap())
    if isinstance(v, Sym):
        return mk(v.t, True)
    if isinstance(v, str):
        return v if attr else v.encode()
    if isinstance(v, bytes):
        return v
    if isinstance(v, (bool, int, float)):
        return v if is_special(v) else mk(to_term(v), True)
    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")


def _read(v):
    if isinstance(v, A.ndarray):
        return v.copy()
    if isinstance(v, list):
        return A.from_elem(len(v), "O", lambda i: z3.IntVal(0), objs=list(v))
    return v


class Ghost:
    """contents stored and loaded by a call that is replaced by its contract"""

    def __init__(self, tag):
        self.tag = tag


class AttributeManager:
    def __init__(self, node, h):
        self._n, self._h = node, h

    def _chk(self, write=False):
        if not self._h.open:
            raise RuntimeError("Unable to synchronously get attribute (invalid identifier)")
        if write and self._h.mode == "r":
            raise OSError("no write intent on file")

    def __getitem__(self, k):
        self._chk()
        if k not in self._n.attrs:
            raise KeyError("Unable to synchronously open attribute (can't locate attribute: %r)" % k)
        return _read(self._n.attrs[k])

    def __setitem__(self, k, v):
        self._chk(True)
        self._n.attrs[k] = _snap(v, True)

    create = __setitem__

    def get(self, k, d=None):
        self._chk()
        return _read(self._n.attrs[k]) if k in self._n.attrs else d

    def __contains__(self, k):
        self._chk()
        return k in self._n.attrs

    def keys(self):
        return sorted(self._n.attrs)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())


class _Obj:
    def __init__(self, node, h, name):
        self._node, self._h, self._name = node, h, name

    @property
    def attrs(self):
        return AttributeManager(self._node, self._h)

    @property
    def name(self):
        return self._name

    def _chk(self, write=False):
        if not self._h.open:
            raise KeyError("Unable to synchronously open object (invalid identifier type to function)")
        if write and self._h.mode == "r":
            raise ValueError("Unable to create dataset (no write intent on file)")

    def __bool__(self):
        return self._h.open

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("h5py attribute %s" % n)


class Dataset(_Obj):
    def __getitem__(self, k):
        if not self._h.open:
            raise ValueError("Not a dataset (not a dataset)")
        v = self._node.value
        if k is Ellipsis or (isinstance(k, tuple) and len(k) == 0):
            if k is Ellipsis and not isinstance(v, A.ndarray):
                raise Unsupported("0-d array from a dataset")
            return _read(v)
        if isinstance(v, A.ndarray):
            return v.copy()[k]
        raise ValueError("Illegal slicing argument for scalar dataspace")

    @property
    def shape(self):
        return self._node.value.shape if isinstance(self._node.value, A.ndarray) else ()

    @property
    def size(self):
        return self._node.value.size if isinstance(self._node.value, A.ndarray) else 1

    def pv_len(self):
        return self._node.value.pv_len()

    @property
    def dtype(self):
        return self._node.value.dtype


class Group(_Obj):
    def _walk(self, parts, create=False):
        n = self._node
        for p in parts:
            if n.kind != "group":
                raise KeyError("Unable to synchronously open object (message type not found)")
            if p not in n.items:
                if not create:
                    raise KeyError("Unable to synchronously open object (object %r doesn't exist)" % p)
                n.items[p] = _Node("group")
            n = n.items[p]
        return n

    def _wrap(self, node, name):
        return (Group if node.kind == "group" else Dataset)(node, self._h, name)

    def __getitem__(self, path):
        self._chk()
        if isinstance(path, str) and path.startswith("/") and not isinstance(self, File):
            raise Unsupported("absolute HDF5 path")
        return self._wrap(self._walk(_parts(path)), path)

    def get(self, path, default=None):
        try:
            return self[path]
        except KeyError:
            return default

    def __contains__(self, path):
        return self.get(path) is not None

    def _put(self, path, node, exc):
        self._chk(True)
        if isinstance(path, str) and path.startswith("/") and not isinstance(self, File):
            raise Unsupported("absolute HDF5 path")
        ps = _parts(path)
        if not ps:
            raise exc("Unable to create link (name already exists)")
        try:
            parent = self._walk(ps[:-1], True)
        except KeyError:
            raise exc("Unable to create link (message type not found)")
        if parent.kind != "group":
            raise exc("Unable to create link (message type not found)")
        if ps[-1] in parent.items:
            raise exc("Unable to create link (name already exists)")
        parent.items[ps[-1]] = node

    def __setitem__(self, path, v):
        n = _Node("data")
        n.value = _snap(v)
        self._put(path, n, OSError)

    def __delitem__(self, path):
        self._chk(True)
        ps = _parts(path)
        parent = self._walk(ps[:-1])
        if ps[-1] not in parent.items:
            raise KeyError("Couldn't delete link")
        del parent.items[ps[-1]]

    def create_group(self, name, track_order=None):
        n = _Node("group")
        self._put(name, n, ValueError)
        return Group(n, self._h, name)

    def require_group(self, name):
        if name in self:
            g = self[name]
            if not isinstance(g, Group):
                raise TypeError("Incompatible object (Dataset) already exists")
            return g
        return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, **k):
        if shape is not None or (k and set(k) - {"compression_opts", "shuffle"}):
            raise Unsupported("create_dataset options")
        if data is None:
            raise TypeError("One of data, shape or dtype must be specified")
        v = _snap(data)
        if dtype is not None and isinstance(v, A.ndarray):
            v = v.astype(dtype)
        if compression is not None and not isinstance(v, A.ndarray):
            raise TypeError("Scalar datasets don't support chunk/filter options")
        n = _Node("data")
        n.value = v
        self._put(name, n, ValueError)
        return Dataset(n, self._h, name)

    def keys(self):
        self._chk()
        return sorted(self._node.items)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._node.items)


class File(Group):
    def __init__(self, name, mode="r", **k):
        c = ctx()
        name = str(name)
        got = c.fs.get(name)
        if mode in ("w", "w-", "x"):
            if mode != "w" and got is not None:
                raise FileExistsError("Unable to synchronously create file")
            root = _Node("group")
            c.fs[name] = root
        elif mode in ("r", "r+"):
            if got is None:
                raise FileNotFoundError("Unable to synchronously open file")
            root = got
        elif mode == "a":
            root = got or _Node("group")
            c.fs[name] = root
        else:
            raise ValueError("Invalid mode")
        if not isinstance(root, _Node):
            raise OSError("Unable to synchronously open file (file signature not found)")
        _Obj.__init__(self, root, _Handle(mode), "/")

    @property
    def mode(self):
        return self._h.mode

    def close(self):
        self._h.open = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def make():
    from .shims import module
    grp = module("h5py._hl.group", Group=Group)
    ds = module("h5py._hl.dataset", Dataset=Dataset)
    hl = module("h5py._hl", group=grp, dataset=ds)
    return module("h5py", File=File, Group=Group, Dataset=Dataset, _hl=hl)
