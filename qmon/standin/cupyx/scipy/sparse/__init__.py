"""Stand-in for cupyx.scipy.sparse, see cupy: sparse matrices in device memory."""
import numpy as _np
import scipy.sparse as _sp

import cupy as _cp


class spmatrix:
    format = None
    __array_priority__ = 101

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, _np.ndarray):
            raise ValueError("Unsupported initializer format")
        kw = {}
        if shape is not None:
            kw["shape"] = shape
        if dtype is not None:
            kw["dtype"] = dtype
        _cp._count("device_operations")
        self._m = getattr(_sp, self.format + "_matrix")(_host(arg), **kw)

    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed.")

    def get(self, *args, **kwargs):
        _cp._count("downloads")
        return self._m.copy()

    def toarray(self, *args, **kwargs):
        _cp._count("device_operations")
        return _cp._device(self._m.toarray())

    def todense(self, *args, **kwargs):
        return self.toarray()

    def dot(self, other):
        return self * other if _np.isscalar(other) else self @ other

    def __matmul__(self, other):
        return _wrap(self._m @ _host(other))

    def __rmatmul__(self, other):
        return _wrap(_host(other) @ self._m)

    def __mul__(self, other):
        return _wrap(self._m * _host(other))

    def __rmul__(self, other):
        return _wrap(_host(other) * self._m)

    def __add__(self, other):
        return _wrap(self._m + _host(other))

    def __sub__(self, other):
        return _wrap(self._m - _host(other))

    def __truediv__(self, other):
        return _wrap(self._m / _host(other))

    def __neg__(self):
        return _wrap(-self._m)

    def __abs__(self):
        return _wrap(abs(self._m))

    def __getitem__(self, i):
        return _wrap(self._m[_host(i)])

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    def __repr__(self):
        return repr(self._m)

    __str__ = __repr__

    def __getattr__(self, name):
        if name.startswith("__") or name == "_m":
            raise AttributeError(name)
        found = getattr(self._m, name)
        if callable(found):
            return lambda *args, **kwargs: _wrap(found(*[_host(a) for a in args], **{k: _host(v) for k, v in kwargs.items()}))
        return _wrap(found)


class csr_matrix(spmatrix):
    format = "csr"


class csc_matrix(spmatrix):
    format = "csc"


class coo_matrix(spmatrix):
    format = "coo"


class dia_matrix(spmatrix):
    format = "dia"


_classes = {c.format: c for c in (csr_matrix, csc_matrix, coo_matrix, dia_matrix)}


def _host(x):
    if isinstance(x, spmatrix):
        return x._m
    if isinstance(x, (tuple, list)):
        return type(x)(_host(y) for y in x)
    return _cp._host(x)


def _wrap(x):
    _cp._count("device_operations")
    if _sp.issparse(x):
        cls = _classes.get(x.format)
        if cls is None:
            x, cls = x.tocsr(), csr_matrix
        new = object.__new__(cls)
        new._m = x
        return new
    if type(x) in (tuple, list):
        return type(x)(_wrap(y) for y in x)
    if isinstance(x, _np.matrix):
        x = _np.asarray(x)
    return _cp._device(x)


def issparse(x):
    return isinstance(x, spmatrix)


isspmatrix = issparse


def kron(A, B, format=None):
    return _wrap(_sp.kron(_host(A), _host(B), format=format or "coo"))


def eye(m, n=None, k=0, dtype="d", format=None):
    return _wrap(_sp.eye(m, n, k, dtype=dtype, format=format))


def identity(n, dtype="d", format=None):
    return eye(n, n, dtype=dtype, format=format)


def __getattr__(name):
    found = getattr(_sp, name)
    if isinstance(found, type) or not callable(found):
        return found
    return lambda *args, **kwargs: _wrap(found(*[_host(a) for a in args], **{k: _host(v) for k, v in kwargs.items()}))
