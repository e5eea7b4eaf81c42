"""A stand-in for CuPy that computes on the host.

It keeps CuPy's separation of device and host memory, which is what code written for NumPy
gets wrong: device arrays never become host arrays implicitly, operations on device arrays
refuse host arrays, and indexing a device array with a number gives a zero-dimensional view
of it (an array, not a number).  Everything else is delegated to NumPy."""
import operator

import numpy as _np

counts = {"uploads": 0, "device_operations": 0, "downloads": 0}


def _count(what):
    counts[what] += 1


class ndarray:
    __array_priority__ = 100

    def __init__(self, shape, dtype=float):
        self._a = _np.zeros(shape, dtype)

    # ---- leaving the device
    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.")

    def get(self, *args, **kwargs):
        _count("downloads")
        return self._a.copy()

    def item(self, *args):
        _count("downloads")
        return self._a.item(*args)

    def tolist(self):
        _count("downloads")
        return self._a.tolist()

    def __bool__(self):
        return bool(self._a)

    def __int__(self):
        return int(self._a)

    def __float__(self):
        return float(self._a)

    def __complex__(self):
        return complex(self._a)

    def __index__(self):
        return operator.index(self._a)

    def __len__(self):
        return len(self._a)

    def __repr__(self):
        return repr(self._a)

    def __str__(self):
        return str(self._a)

    def __format__(self, spec):
        return format(self._a if self._a.ndim else self._a[()], spec)

    __hash__ = None

    # ---- staying on it
    def __getitem__(self, i):
        i = _host(i)
        parts = i if isinstance(i, tuple) else (i,)
        if all(isinstance(p, (int, _np.integer)) for p in parts) and len(parts) == self._a.ndim:
            return _device(self._a[parts + (Ellipsis,)])  # a view
        return _device(self._a[i])

    def __setitem__(self, i, value):
        self._a[_host(i)] = _host(value)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self._a)))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _call(getattr(ufunc, method), inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return globals()[func.__name__](*args, **kwargs) if func.__name__ in globals() else _call(func, args, kwargs)

    @property
    def __array_interface__(self):
        raise AttributeError("__array_interface__")

    @property
    def flat(self):
        return (_device(_np.asarray(x)) for x in self._a.flat)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        found = getattr(self._a, name)
        if callable(found):
            return lambda *args, **kwargs: _call(found, args, kwargs)
        return _device(found)


def _binary(name):
    f = getattr(operator, name, None) or getattr(operator, name + "_")

    def forward(self, other):
        return _call(f, (self, other), {}) if _known(other) else NotImplemented

    def backward(self, other):
        return _call(f, (other, self), {}) if _known(other) else NotImplemented

    return forward, backward


def _inplace(name):
    f = getattr(operator, "i" + name)

    def change(self, other):
        _count("device_operations")
        self._a = f(self._a if self._a.ndim else self._a[...], _host(other))
        return self

    return change


def _known(x):
    if isinstance(x, _np.ndarray) and x.ndim:
        raise TypeError("Unsupported type %r" % type(x))
    return isinstance(x, (ndarray, int, float, complex, bool, _np.generic, _np.ndarray))


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift", "divmod"):
    if _n == "divmod":
        continue
    _f, _b = _binary(_n)
    setattr(ndarray, "__%s__" % _n, _f)
    setattr(ndarray, "__r%s__" % _n, _b)
    setattr(ndarray, "__i%s__" % _n, _inplace(_n))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(ndarray, "__%s__" % _n, _binary(_n)[0])
for _n in ("neg", "pos", "abs", "invert"):
    setattr(ndarray, "__%s__" % _n, (lambda f: lambda self: _call(f, (self,), {}))(getattr(operator, _n)))


def _divmod(self, other):
    return self // other, self % other


ndarray.__divmod__ = _divmod


def _host(x):
    """The host value of an argument of a device operation."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, _np.ndarray) and x.ndim:
        raise TypeError("Unsupported type %r" % type(x))
    if isinstance(x, tuple):
        return tuple(_host(y) for y in x)
    if isinstance(x, list):
        return [_host(y) for y in x]
    return x


def _device(x):
    if isinstance(x, (_np.ndarray, _np.generic)):
        new = object.__new__(ndarray)
        new._a = _np.asarray(x)
        return new
    if type(x) in (tuple, list):
        return type(x)(_device(y) for y in x)
    return x


def _call(f, args, kwargs):
    _count("device_operations")
    return _device(f(*[_host(a) for a in args], **{k: _host(v) for k, v in kwargs.items()}))


def _upload(f):
    def run(a, *args, **kwargs):
        _count("uploads")
        return _device(f(_plain(a), *args, **kwargs))

    return run


def _plain(a):
    if isinstance(a, ndarray):
        return a._a
    if isinstance(a, (list, tuple)):
        return type(a)(_plain(x) for x in a)
    return a


array = _upload(_np.array)
asarray = _upload(_np.asarray)
asanyarray = _upload(_np.asanyarray)
ascontiguousarray = _upload(_np.ascontiguousarray)


def asnumpy(a, *args, **kwargs):
    _count("downloads")
    return _np.array(_plain(a))


def isclose(a, b, *args, **kwargs):
    return _call(_np.isclose, (asarray(a), asarray(b)) + args, kwargs)


def allclose(a, b, *args, **kwargs):
    return _device(_np.asarray(_np.allclose(_plain(a), _plain(b), *args, **kwargs)))


def get_array_module(*args):
    import sys

    return sys.modules[__name__] if any(isinstance(a, ndarray) for a in args) else _np


def __getattr__(name):
    found = getattr(_np, name)
    if isinstance(found, type) or not callable(found):
        return found
    return lambda *args, **kwargs: _call(found, args, kwargs)
