"""Array-library stand-ins used as backends."""
import importlib.util
import sys
import types
import weakref

import numpy as np


class Counting:
    """module `name` offering einsum / tensordot / transpose on numpy arrays and counting the calls."""

    def __init__(self, name="vp_counting"):
        self.calls = {"einsum": 0, "tensordot": 0, "transpose": 0}
        self.made = []
        m = types.ModuleType(name)
        m.__spec__ = importlib.util.spec_from_loader(name, loader=None)
        m.einsum, m.tensordot, m.transpose = self.einsum, self.tensordot, self.transpose
        sys.modules[name] = m
        self.name = name

    def reset(self):
        for k in self.calls:
            self.calls[k] = 0
        self.made = []

    def total(self):
        return sum(self.calls.values())

    def _ret(self, x):
        x = np.array(x)
        self.made.append(weakref.ref(x))
        return x

    def einsum(self, eq, *ops, **kw):
        self.calls["einsum"] += 1
        return self._ret(np.einsum(eq, *ops, **kw))

    def tensordot(self, x, y, axes=2):
        self.calls["tensordot"] += 1
        return self._ret(np.tensordot(x, y, axes=axes))

    def transpose(self, x, axes):
        self.calls["transpose"] += 1
        return self._ret(np.transpose(x, axes))


class MArr:
    """array type of a library that offers only tensordot and transpose."""

    def __init__(self, x, owner):
        self._x, self._owner = np.asarray(x), owner

    @property
    def shape(self):
        return self._x.shape


class Minimal:
    """module `name` with tensordot and transpose only (no einsum) on its own array type."""

    def __init__(self, name, transpose_function=True, einsum=False):
        self.calls = {"einsum": 0, "tensordot": 0, "transpose": 0}
        me = self

        class Arr(MArr):
            def __init__(self, x):
                super().__init__(x, me)

        if not transpose_function:
            def method(self, axes):
                me.calls["transpose"] += 1
                return me.Arr(np.transpose(self._x, axes))

            Arr.transpose = method
        Arr.__module__ = name
        Arr.__name__ = Arr.__qualname__ = "Arr"
        self.Arr = Arr
        m = types.ModuleType(name)
        m.__spec__ = importlib.util.spec_from_loader(name, loader=None)
        m.Arr = Arr
        m.tensordot = self.tensordot
        if transpose_function:
            m.transpose = self.transpose
        if einsum:
            m.einsum = self.einsum
        sys.modules[name] = m
        self.name, self.module = name, m

    def _chk(self, *xs):
        for x in xs:
            if not isinstance(x, self.Arr):
                raise TypeError(f"{self.name} function given a {type(x)}")

    def reset(self):
        for k in self.calls:
            self.calls[k] = 0

    def tensordot(self, x, y, axes=2):
        self._chk(x, y)
        self.calls["tensordot"] += 1
        return self.Arr(np.tensordot(x._x, y._x, axes=axes))

    def transpose(self, x, axes):
        self._chk(x)
        self.calls["transpose"] += 1
        return self.Arr(np.transpose(x._x, axes))

    def einsum(self, eq, *ops):
        self._chk(*ops)
        self.calls["einsum"] += 1
        return self.Arr(np.einsum(eq, *[o._x for o in ops]))


class FakeCupy(Minimal):
    """module `cupy`: device arrays made by asarray (transfers are counted), read back by .get()."""

    def __init__(self):
        super().__init__("cupy", einsum=True)
        self.moved = []  # the host arrays transferred, in order
        self.fetched = 0
        me = self

        def get(arr):
            me.fetched += 1
            return np.array(arr._x)

        self.Arr.get = get
        self.module.asarray = self.asarray
        self.module.ndarray = self.Arr

    def asarray(self, x):
        self.moved.append(np.array(x))
        return self.Arr(np.array(x))

    def reset(self):
        super().reset()
        self.moved, self.fetched = [], 0


class FakeTheano:
    """modules `theano` and `theano.tensor`: symbolic variables, constants, function() and tensordot / transpose."""

    def __init__(self):
        me = self
        th = types.ModuleType("theano")
        tt = types.ModuleType("theano.tensor")
        for m in (th, tt):
            m.__spec__ = importlib.util.spec_from_loader(m.__name__, loader=None)
        th.__path__ = []
        self.constants = 0
        self.functions = 0

        class Var:
            def __init__(self, fn=None, ndim=None):
                self._fn, self.ndim = fn, ndim

            def _ev(self, env):
                if self in env:
                    return env[self]
                if self._fn is None:
                    raise KeyError("missing theano input")
                return self._fn(env)

            def eval(self):
                return np.asarray(self._ev({}))

        class TensorConstant(Var):
            def __init__(self, x):
                x = np.array(x)
                super().__init__(lambda env: x, x.ndim)

        class TensorType:
            def __init__(self, dtype, broadcastable):
                self.ndim = len(broadcastable)

            def __call__(self):
                return Var(None, self.ndim)

        for c in (Var, TensorConstant, TensorType):
            c.__module__ = "theano.tensor"

        def constant(x):
            me.constants += 1
            return TensorConstant(x)

        def function(ins, out):
            me.functions += 1
            ins = list(ins)
            if any(isinstance(v, TensorConstant) or not isinstance(v, Var) for v in ins):
                raise TypeError("theano.function: an input is not a variable")
            if len(set(map(id, ins))) != len(ins):
                raise ValueError("theano.function: an input is given twice")

            def call(*xs):
                if len(xs) != len(ins):
                    raise TypeError(f"theano function takes {len(ins)} inputs, got {len(xs)}")
                for v, x in zip(ins, xs):
                    if np.asarray(x).ndim != v.ndim:
                        raise TypeError("theano function: wrong rank")
                return np.asarray(out._ev({v: np.asarray(x) for v, x in zip(ins, xs)}))

            return call

        def tensordot(x, y, axes=2):
            for v in (x, y):
                if not isinstance(v, Var):
                    raise TypeError(f"theano.tensor.tensordot given a {type(v)}")
            return Var(lambda env: np.tensordot(x._ev(env), y._ev(env), axes=axes))

        def transpose(x, axes):
            if not isinstance(x, Var):
                raise TypeError(f"theano.tensor.transpose given a {type(x)}")
            return Var(lambda env: np.transpose(x._ev(env), axes))

        tt.TensorConstant, tt.TensorType, tt.constant = TensorConstant, TensorType, constant
        tt.tensordot, tt.transpose = tensordot, transpose
        th.tensor, th.function = tt, function
        sys.modules["theano"], sys.modules["theano.tensor"] = th, tt
        self.Var = Var


class FakeTensorflow:
    """module `tensorflow` in graph mode (version 1): placeholders, constants, a default session."""

    def __init__(self):
        me = self
        tf = types.ModuleType("tensorflow")
        tf.__spec__ = importlib.util.spec_from_loader("tensorflow", loader=None)
        self.runs = 0
        self.placeholders = 0

        class Op:
            def __init__(self, kind):
                self.type = kind

        class Tensor:
            def __init__(self, kind, fn, shape=None, dtype=None):
                self.op, self._fn, self.shape, self.dtype = Op(kind), fn, shape, dtype

            def _ev(self, feed):
                if self in feed:
                    return feed[self]
                if self._fn is None:
                    raise ValueError("You must feed a value for the placeholder")
                return self._fn(feed)

        Tensor.__module__ = "tensorflow.python.framework.ops"

        class Session:
            def run(self, fetches, feed_dict=None):
                me.runs += 1
                feed = {}
                for p, x in (feed_dict or {}).items():
                    x = np.asarray(x)
                    if not isinstance(p, Tensor) or p.op.type != "Placeholder":
                        raise TypeError("only placeholders are fed here")
                    if x.shape != p.shape:
                        raise ValueError(f"cannot feed shape {x.shape} for a placeholder of shape {p.shape}")
                    feed[p] = x
                if isinstance(fetches, (list, tuple)):
                    return [np.array(f._ev(feed)) for f in fetches]
                return np.array(fetches._ev(feed))

        session = Session()

        def tensor(x):
            if not isinstance(x, Tensor):
                raise TypeError(f"tensorflow given a {type(x)}")
            return x

        def placeholder(dtype, shape=None):
            me.placeholders += 1
            return Tensor("Placeholder", None, tuple(shape), dtype)

        def constant(x):
            x = np.array(x)
            return Tensor("Const", lambda feed: x, x.shape, x.dtype)

        def einsum(eq, *ops):
            if not set(eq) <= set(",->abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"):
                raise ValueError(f"tensorflow.einsum: bad equation {eq}")
            ops = [tensor(o) for o in ops]
            return Tensor("Einsum", lambda feed: np.einsum(eq, *[o._ev(feed) for o in ops]))

        def tensordot(x, y, axes=2):
            x, y = tensor(x), tensor(y)
            return Tensor("MatMul", lambda feed: np.tensordot(x._ev(feed), y._ev(feed), axes=axes))

        def transpose(x, perm):
            x = tensor(x)
            return Tensor("Transpose", lambda feed: np.transpose(x._ev(feed), perm))

        class Device:
            def __init__(self, name):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                return False

        tf.executing_eagerly = lambda: False
        tf.test = types.SimpleNamespace(gpu_device_name=lambda: "")
        tf.device, tf.Tensor = Device, Tensor
        tf.placeholder, tf.convert_to_tensor, tf.constant = placeholder, constant, constant
        tf.einsum, tf.tensordot, tf.transpose = einsum, tensordot, transpose
        tf.get_default_session = lambda: session
        self.module, self.Tensor = tf, Tensor
        sys.modules["tensorflow"] = tf
