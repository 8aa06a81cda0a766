"""Models (assumed contracts) of the numpy / scipy / skbase names used by /repo.

Every name that is not modelled raises Unsupported when used: the verdict is then
"undecided", never "proved".
"""
import builtins
import math
import types

from . import alg
from .alg import Mat, Sc, E, J, diag, ewise, inv, node, ones, rows, sc_fn, sc_sqrt, tri
from .lin import Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_lt, f_not, f_or
from .vals import (AnyRows, Arr, DType, Failed, Flex, Mask, MaskVal, ObjVec, RegionSel, SBool, SInt, SReal, ST,
                   Storage, SymList, UFun, UFunSeq, Unsupported, _scalarish, as_arr, branch, coerce, copy_arr,
                   data_mat, dims, ew_mul, fresh, is_intlike, mk_bool, mk_int, new_arr, new_fam, np_diagonal,
                   np_dot, np_stack_rows, np_sum, reshape, same_dim, store_value, to_sc, zeros_arr)

USED = set()          # modelled names actually used on this run (reported as assumed contracts)
ASSUME = set()        # preconditions the models rely on


class Mod(types.ModuleType):
    def __init__(self, name, d):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(d)
        self.__dict__["_d"] = d

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, k))


def used(name):
    def dec(f):
        def g(*a, **k):
            USED.add(name)
            return f(*a, **k)
        g.__name__ = name
        return g
    return dec


def _dtype_kind(dt):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return dt.k
    if dt is object or dt == "object" or dt == "O":
        return "o"
    if dt is builtins.float or dt in ("float", "d", "f8", "float64") or getattr(dt, "_is_float", False):
        return "f"
    if dt is builtins.bool or dt == "bool":
        return "b"
    raise Unsupported("dtype %r" % (dt,))


class FloatT:
    """np.float64 / np.double"""
    _is_float = True

    def __call__(self, x=0.0):
        return x


FLOAT = FloatT()


# ---- conversion -----------------------------------------------------------------
def _with_dtype(a, dt, share):
    k = _dtype_kind(dt)
    if k is None or k == a.root().dtype:
        return a
    if k == "f":
        # may or may not alias the argument; it is treated as sharing (read-only when owned)
        if share:
            r = copy_arr(a)
            r.st.dtype = "f"
            r.st.owner = a.root().owner
            return r
        r = copy_arr(a)
        r.st.dtype = "f"
        return r
    raise Unsupported("dtype conversion to %s" % k)


@used("numpy.asarray")
def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, (UFunSeq, ObjVec)):
        return x
    if isinstance(x, Flex) and _dtype_kind(dtype) is None:
        return x
    if callable(x) or (isinstance(x, (list, tuple)) and any(callable(i) for i in x)):
        return ObjVec([x] if callable(x) else list(x))
    a = as_arr(x)
    if isinstance(a, ObjVec):
        return a
    if a.mk is not None:
        a = a.data                        # np.asarray drops the mask
    return _with_dtype(a, dtype, True)


@used("numpy.array")
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (list, tuple)) and x and all(is_intlike(i) for i in x):
        return IntVec(x)
    if isinstance(x, (UFunSeq, ObjVec)):
        return x
    a = as_arr(x)
    if isinstance(a, ObjVec):
        return a
    if a.mk is not None:
        a = a.data
    if copy is False:
        return _with_dtype(a, dtype, True)
    r = copy_arr(a)
    kk = _dtype_kind(dtype)
    if kk == "f":
        r.root().dtype = "f"
    elif kk is not None:
        raise Unsupported("array dtype")
    while r.ndim < ndmin:
        r = r[None]
    return r


class IntVec:
    """1-D array of integers (possibly symbolic)"""
    ndim = 1

    def __init__(self, xs):
        self.xs = list(xs)

    @property
    def shape(self):
        return (len(self.xs),)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return IntVec(self.xs[i])
        return self.xs[i]

    def __iter__(self):
        return iter(self.xs)

    def _cmp(self, o, f):
        if isinstance(o, IntVec):
            ys = o.xs
        elif is_intlike(o):
            ys = [o] * len(self.xs)
        else:
            raise Unsupported("comparison of an integer array")
        return BoolVec([f(x, y) for x, y in zip(self.xs, ys)])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = None

    def as_array(self):
        return as_arr(list(self.xs))


class BoolVec:
    def __init__(self, xs):
        self.xs = list(xs)

    def all(self, *a):
        r = True
        for x in self.xs:
            if not x:
                r = False
        return r

    def any(self, *a):
        r = False
        for x in self.xs:
            if x:
                r = True
        return r

    def __iter__(self):
        return iter(self.xs)


def _atleast(x, n, ma_=False):
    if isinstance(x, (UFunSeq, ObjVec)):
        if n == 1:
            return x
        raise Unsupported("2-D array of functions")
    if callable(x):
        if n == 1:
            return ObjVec([x])
        raise Unsupported("2-D array of functions")
    if isinstance(x, (list, tuple)) and x and any(callable(i) for i in x):
        if n == 1:
            return ObjVec(list(x))
        raise Unsupported("2-D array of functions")
    if isinstance(x, Flex):
        if x.sub_rank >= n:
            return x
        if x.sub_rank == 1 and n == 2:
            x = x.resolve()
        else:
            raise Unsupported("flexible array of low rank")
    a = as_arr(x)
    if a.mk is not None and not ma_:
        a = Arr(a.st, a.tr, a.parent, a.sel, a.mk, a._sh)
    while a.ndim < n:
        if a.ndim == 0:
            r = new_arr(a.mat(), (ONE,), a.root().dtype, a.mk)
            r.st.owner = a.root().owner
            a = r
        else:
            a = a[None]
    return a


@used("numpy.atleast_1d")
def atleast_1d(x):
    return _atleast(x, 1)


@used("numpy.atleast_2d")
def atleast_2d(x):
    return _atleast(x, 2)


# ---- creation ----------------------------------------------------------------------
@used("numpy.zeros")
def zeros(shape, dtype=None, order=None):
    return zeros_arr(shape, _dtype_kind(dtype) or "f")


@used("numpy.empty")
def empty(shape, dtype=None, order=None):
    sh = dims(shape)
    if _dtype_kind(dtype) == "o":
        return zeros_arr(shape, "o")
    nm = fresh("uninit")
    if len(sh) <= 2:
        if len(sh) == 0:
            return SReal(alg.sc_sym(nm))
        return new_arr(alg.base(nm, sh[0], sh[1] if len(sh) > 1 else ONE), sh)
    return new_fam(shape, lambda i: alg.base(nm, sh[1], sh[2], (i,)))


@used("numpy.ones")
def np_ones(shape, dtype=None):
    r = zeros_arr(shape)
    if isinstance(r, SReal):
        return SReal(1)
    return full(shape, 1.0)


@used("numpy.full")
def full(shape, v, dtype=None):
    r = zeros_arr(shape)
    if len(dims(shape)) > 2:
        raise Unsupported("full of rank 3")
    r.st.base = ("mat", store_value(r, r.dims(), v))
    return r


@used("numpy.eye")
def eye(n, m=None, k=0, dtype=None):
    if k != 0:
        raise Unsupported("eye offset")
    n = Lin.of(n)
    m = n if m is None else Lin.of(m)
    return new_arr(rect_eye(n, m), (n, m))


def rect_eye(n, m):
    if n == m:
        return Mat.eye(n)
    if m == ONE:
        return E(n, ZERO)
    if n == ONE:
        return E(m, ZERO).T
    return alg.base("rectangular-identity", n, m)


@used("numpy.zeros_like")
def zeros_like(a, dtype=None):
    a = coerce(a)
    return zeros_arr(a.shape, _dtype_kind(dtype) or a.root().dtype)


@used("numpy.ones_like")
def ones_like(a, dtype=None):
    a = coerce(a)
    r = full(a.shape, 1.0)
    r.st.dtype = _dtype_kind(dtype) or a.root().dtype
    return r


@used("numpy.empty_like")
def empty_like(a, dtype=None):
    a = coerce(a)
    r = empty(a.shape)
    r.st.dtype = _dtype_kind(dtype) or a.root().dtype
    return r


@used("numpy.copy")
def np_copy(a, **k):
    return copy_arr(as_arr(a))


# ---- linear algebra -----------------------------------------------------------------
@used("numpy.dot")
def dot(a, b):
    return np_dot(a, b)


@used("numpy.matmul")
def matmul(a, b):
    return np_dot(a, b)


@used("numpy.outer")
def outer(a, b):
    a, b = coerce(a), coerce(b)
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("outer of matrices")
    return new_arr(data_mat(a) @ data_mat(b).T, (a.dims()[0], b.dims()[0]), "f")


@used("numpy.diag")
def np_diag(a, k=0):
    a = coerce(a)
    if k != 0:
        raise Unsupported("diag offset")
    if a.ndim == 1:
        return new_arr(diag(data_mat(a)), (a.dims()[0], a.dims()[0]), a.root().dtype)
    return np_diagonal(a)


@used("numpy.trace")
def trace(a):
    return np_sum(np_diagonal(a))


@used("numpy.transpose")
def transpose(a, axes=None):
    return as_arr(a).transpose() if axes is None else as_arr(a).transpose(axes)


def _cat_mats(ms, ds, axis):
    tot = ZERO
    for d in ds:
        tot = tot + d[axis]
    out = None
    start = ZERO
    for m, d in zip(ms, ds):
        j = J(tot, start, d[axis])
        t = (j @ m) if axis == 0 else (m @ j.T)
        out = t if out is None else out + t
        start = start + d[axis]
    return out, tot


def _concat(arrs, axis=0):
    arrs = [as_arr(a) for a in (arrs if not isinstance(arrs, Arr) else list(arrs))]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Failed("shape", "concatenation of arrays of different rank")
    if axis < 0:
        axis += nd
    if nd == 1:
        if len(arrs) == 1:
            return copy_arr(arrs[0])
        m, tot = _cat_mats([data_mat(a) for a in arrs], [a.dims() for a in arrs], 0)
        return new_arr(m, (tot,))
    if nd == 2:
        o = 1 - axis
        for a in arrs[1:]:
            if not same_dim(a.dims()[o], arrs[0].dims()[o]):
                raise Failed("shape", "concatenation of incompatible shapes")
        if len(arrs) == 1:
            return copy_arr(arrs[0])
        m, tot = _cat_mats([data_mat(a) for a in arrs], [a.dims() for a in arrs], axis)
        sh = [None, None]
        sh[axis], sh[o] = tot, arrs[0].dims()[o]
        return new_arr(m, tuple(sh))
    raise Unsupported("concatenation of rank %d" % nd)


@used("numpy.concatenate")
def concatenate(arrs, axis=0):
    return _concat(arrs, axis)


@used("numpy.hstack")
def hstack(arrs):
    arrs = [as_arr(a) for a in arrs]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@used("numpy.vstack")
def vstack(arrs):
    if isinstance(arrs, SymList):
        v = fresh("i")
        C = ctx()
        k = C.snapshot()
        C.assume(f_ge(Lin.of(v), ZERO))
        C.assume(f_lt(Lin.of(v), arrs.n))
        x = as_arr(arrs.at(Lin.of(v)))
        if x.ndim == 2 and x.dims()[0] == ONE:
            x = x.ravel()
        if x.ndim != 1:
            raise Unsupported("vstack of a symbolic list of matrices")
        m = rows(arrs.n, data_mat(x), v)
        C.restore(k)
        return new_arr(m, (arrs.n, x.dims()[0]))
    if isinstance(arrs, Arr):
        if arrs.ndim == 2:
            return copy_arr(arrs)
        raise Unsupported("vstack of an array")
    arrs = [as_arr(a) for a in arrs]
    arrs = [a[None] if a.ndim == 1 else a for a in arrs]
    return _concat(arrs, 0)


@used("numpy.stack")
def stack(arrs, axis=0):
    if isinstance(arrs, SymList):
        return vstack(arrs) if axis == 0 else vstack(arrs).T.copy()
    arrs = [as_arr(a) for a in arrs]
    r = as_arr(arrs)
    if axis == 0:
        return r
    if axis in (1, -1) and arrs[0].ndim == 1:
        return copy_arr(r.T)
    raise Unsupported("stack axis")


@used("numpy.column_stack")
def column_stack(arrs):
    arrs = [as_arr(a) for a in arrs]
    return _concat([a[:, None] if a.ndim == 1 else a for a in arrs], 1)


@used("numpy.tile")
def tile(a, reps):
    a = as_arr(a)
    if not isinstance(reps, tuple):
        reps = (reps,)
    if len(reps) == 2 and a.ndim == 1:
        a = a[None]
    if len(reps) == 2 and a.ndim == 2:
        r0, r1 = Lin.of(reps[0]), Lin.of(reps[1])
        d = a.dims()
        m = data_mat(a)
        if r0 == ONE and d[1] == ONE:
            return new_arr(m @ ones(r1).T, (d[0], r1))
        if r1 == ONE and d[0] == ONE:
            return new_arr(ones(r0) @ m, (r0, d[1]))
        if r0 == ONE and r1 == ONE:
            return copy_arr(a)
    raise Unsupported("tile pattern")


@used("numpy.repeat")
def repeat(a, n, axis=None):
    a = as_arr(a)
    n = Lin.of(n)
    if axis is not None and a.ndim == 2 and a.dims()[axis] == ONE:
        return tile(a, (mk_int(n), 1) if axis == 0 else (1, mk_int(n)))
    raise Unsupported("repeat pattern")


# ---- elementwise -----------------------------------------------------------------------
def _ewfn(name, f):
    @used("numpy." + name)
    def g(x, **k):
        x = coerce(x)
        if _scalarish(x):
            if not isinstance(x, (SReal, SInt)):
                if name == "sqrt" and float(x) >= 0:
                    return SReal(sc_sqrt(Sc.of(x)))
                if name == "log":
                    return SReal(sc_log(Sc.of(x)))
            s = to_sc(x)
            if name == "sqrt":
                return SReal(sc_sqrt(s))
            if name == "log":
                return SReal(sc_log(s))
            return SReal(sc_fn(name, s))
        x = as_arr(x)
        m = data_mat(x)
        if x.ndim == 1:
            return new_arr(ewise(name, m), x.dims())
        if x.ndim == 2 and x.dims()[0] == ONE:
            return new_arr(ewise(name, m.T).T, x.dims())
        raise Unsupported("elementwise %s of a matrix" % name)
    return g


def sc_log(s):
    v = s.const_value()
    if v == 1:
        return alg.S0
    return sc_fn("log", s)


np_sqrt = _ewfn("sqrt", None)
np_log = _ewfn("log", None)
np_exp = _ewfn("exp", None)


@used("numpy.square")
def square(x):
    return coerce(x) * coerce(x)


@used("numpy.abs")
def np_abs(x):
    x = coerce(x)
    if _scalarish(x):
        return abs(x)
    raise Unsupported("abs of an array")


@used("numpy.sign")
def np_sign(x):
    x = coerce(x)
    if _scalarish(x):
        if x > 0:
            return 1.0
        if x < 0:
            return -1.0
        return 0.0
    raise Unsupported("sign of an array")


@used("numpy.sum")
def sum_(x, axis=None, **k):
    if isinstance(x, (MaskVal,)):
        raise Unsupported("sum of a mask")
    r = np_sum(x, axis)
    if k.get("keepdims"):
        raise Unsupported("keepdims")
    return r


@used("numpy.mean")
def mean(x, axis=None):
    x = as_arr(x)
    if axis is None and x.ndim == 1:
        return np_sum(x) / mk_int(x.dims()[0])
    if axis is not None:
        return np_sum(x, axis) / mk_int(x.dims()[axis])
    raise Unsupported("mean")


@used("numpy.any")
def any_(x, axis=None, **k):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, MaskVal):
        return x.any(axis)
    if isinstance(x, (BoolVec, AnyRows)):
        return x.any()
    if isinstance(x, (list, tuple)) and all(isinstance(i, (bool, SBool)) for i in x):
        return BoolVec(x).any()
    raise Unsupported("any of %s" % type(x).__name__)


@used("numpy.all")
def all_(x, axis=None, **k):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, MaskVal):
        return x.all(axis)
    if isinstance(x, BoolVec):
        return x.all()
    if isinstance(x, (list, tuple)) and all(isinstance(i, (bool, SBool)) for i in x):
        return BoolVec(x).all()
    raise Unsupported("all of %s" % type(x).__name__)


@used("numpy.triu")
def triu(a, k=0):
    raise Unsupported("triu")


@used("numpy.allclose")
def allclose(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == b.ndim and all(same_dim(x, y) for x, y in zip(a.dims(), b.dims())) and \
            alg.equal(a.mat(), b.mat()):
        return True
    raise Unsupported("allclose of different values")


@used("numpy.array_equal")
def array_equal(a, b):
    return allclose(a, b)


@used("numpy.squeeze")
def squeeze(a, axis=None):
    a = as_arr(a)
    d = a.dims()
    if axis is None:
        raise Unsupported("squeeze without axis")
    if len(d) == 2 and d[axis] == ONE:
        return a.ravel()
    raise Unsupported("squeeze")


@used("numpy.expand_dims")
def expand_dims(a, axis):
    a = as_arr(a)
    if axis == 0:
        return a[None]
    if axis in (1, -1) and a.ndim == 1:
        return a[:, None]
    raise Unsupported("expand_dims")


@used("numpy.arange")
def arange(*a):
    if all(is_intlike(x) for x in a):
        return SymRange(*a)
    raise Unsupported("arange")


@used("numpy.isscalar")
def isscalar(x):
    return _scalarish(x)


@used("numpy.shape")
def np_shape(x):
    return as_arr(x).shape if not isinstance(x, Flex) else x.shape


@used("numpy.ndim")
def np_ndim(x):
    return x.ndim if hasattr(x, "ndim") else as_arr(x).ndim


@used("numpy.einsum")
def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ops = [as_arr(o) for o in ops]
    table = {
        "ij,j->i": lambda a, b: np_dot(a, b), "ij,jk->ik": lambda a, b: np_dot(a, b),
        "ij,kj->ik": lambda a, b: np_dot(a, b.T), "i,j->ij": lambda a, b: outer(a, b),
        "i,i->": lambda a, b: np_dot(a, b), "i,ij->j": lambda a, b: np_dot(a, b),
        "ji,j->i": lambda a, b: np_dot(a.T, b),
        "i,ij,ik->jk": lambda w, a, b: np_dot(np_dot(a.T, np_diag(w)), b),
        "ij,i,ik->jk": lambda a, w, b: np_dot(np_dot(a.T, np_diag(w)), b),
    }
    if spec in table:
        return table[spec](*ops)
    raise Unsupported("einsum %s" % spec)


# ---- symbolic ranges -------------------------------------------------------------------
class SymRange:
    """range with symbolic bounds; step +-1"""

    def __init__(self, *a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        self.lo, self.hi = Lin.of(lo), Lin.of(hi)
        if st not in (1, -1):
            raise Unsupported("range step %r" % (st,))
        self.st = st

    def count(self):
        n = (self.hi - self.lo) if self.st == 1 else (self.lo - self.hi)
        if n.is_const():
            return Lin(max(0, n.c))
        if branch(f_ge(n, ZERO)):
            return n
        return ZERO

    def at(self, i):
        i = Lin.of(i)
        return mk_int(self.lo + i if self.st == 1 else self.lo - i)

    def rev(self):
        n = self.count()
        if self.st == 1:
            return SymRange(mk_int(self.lo + n - 1), mk_int(self.lo - 1), -1)
        return SymRange(mk_int(self.lo - n + 1), mk_int(self.lo + 1), 1)

    def sym_len(self):
        return mk_int(self.count())

    def __iter__(self):
        n = self.count()
        if n.is_const():
            return iter([self.at(i) for i in range(n.c)])
        raise Unsupported("iteration over a symbolic range outside of a loop")

    def __getitem__(self, i):
        if is_intlike(i):
            return self.at(Lin.of(i))
        raise Unsupported("range slice")


class SymIter:
    """lazily indexed iterable: count and at(i)"""

    def __init__(self, n, at):
        self.n, self.at = Lin.of(n), at

    def count(self):
        return self.n

    def __iter__(self):
        if self.n.is_const():
            return iter([self.at(Lin(i)) for i in range(self.n.c)])
        raise Unsupported("iteration over a symbolic iterable outside of a loop")


def to_iter(x):
    """(count Lin, at) for a symbolic iterable, or None for ordinary iterables"""
    if isinstance(getattr(x, "sym", None), SymList):
        x = x.sym
    if isinstance(x, SymRange):
        n = x.count()
        return None if n.is_const() else (n, x.at)
    if isinstance(x, SymIter):
        return None if x.n.is_const() else (x.n, x.at)
    if isinstance(x, Flex):
        x = x.resolve()
    if isinstance(x, Arr):
        n = x.dims()[0]
        return None if n.is_const() else (n, lambda i: x[mk_int(Lin.of(i))])
    if isinstance(x, (SymList, UFunSeq)):
        return (x.n, lambda i: x[mk_int(Lin.of(i))])
    return None


def sym_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if all(is_intlike(x) for x in a):
        return SymRange(*a)
    return builtins.range(*a)


def sym_reversed(x):
    if isinstance(x, SymRange):
        return x.rev()
    t = to_iter(x)
    if t:
        n, at = t
        return SymIter(n, lambda i: at(n - 1 - i))
    return builtins.reversed(list(x)) if isinstance(x, (SymIter, Arr)) else builtins.reversed(x)


def sym_enumerate(x, start=0):
    t = to_iter(x)
    if t:
        n, at = t
        return SymIter(n, lambda i: (mk_int(Lin.of(start) + i), at(i)))
    return builtins.enumerate(x, start)


def sym_zip(*xs, **k):
    ts = [to_iter(x) for x in xs]
    if not any(ts):
        return builtins.zip(*xs, **k)
    if not all(ts):
        raise Unsupported("zip of a symbolic and a concrete iterable")
    n = ts[0][0]
    for m, _ in ts[1:]:
        if not same_dim(n, m):
            if branch(f_ge(m, n)):
                continue
            n = m
    return SymIter(n, lambda i: tuple(at(i) for _, at in ts))


def sym_len(x):
    if isinstance(getattr(x, "sym", None), SymList):
        return x.sym.sym_len()
    if hasattr(x, "sym_len"):
        return x.sym_len()
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return mk_int(x.dims()[0])
    if isinstance(x, Flex):
        return sym_len(x.resolve())
    if isinstance(x, SymIter):
        return mk_int(x.n)
    return builtins.len(x)


def sym_sum(x, start=0):
    if isinstance(x, (SymList,)):
        v = fresh("s")
        y = x.at(Lin.of(v))
        return _sum_family(x.n, v, y, start)
    if isinstance(x, Arr):
        t = to_iter(x)
        if t:
            if x.ndim == 1:
                return np_sum(x) + start
            raise Unsupported("sum over rows")
    return builtins.sum(x, start)


def _sum_family(n, v, y, start):
    if isinstance(y, Arr):
        r = new_arr(alg.mat_sum(n, y.mat(), v), y.dims())
        return r + start if not (isinstance(start, int) and start == 0) else r
    return SReal(alg.sc_sum(n, to_sc(y), v)) + start


def sym_list(x=()):
    t = to_iter(x)
    if t:
        n, at = t
        return SymList(n, at)
    return builtins.list(x)


def sym_tuple(x=()):
    if isinstance(x, FlexShapeT):
        return x
    t = to_iter(x)
    if t:
        n, at = t
        return SymList(n, at)
    return builtins.tuple(x)


from .vals import FlexShape as FlexShapeT


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SReal):
            raise Unsupported("int() of a real")
        return builtins.int(x, *a)


class IntT(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SReal))

    def __call__(cls, x=0.0):
        if isinstance(x, (SReal, SInt)):
            return SReal(to_sc(x))
        return builtins.float(x)


class FloatP(metaclass=_FloatMeta):
    _is_float = True


def sym_minmax(which):
    def f(*a, **k):
        if len(a) == 1:
            a = tuple(a[0])
        if k or not all(_scalarish(x) for x in a):
            return getattr(builtins, which)(*a, **k)
        r = a[0]
        for x in a[1:]:
            if which == "min":
                r = x if x < r else r
            else:
                r = x if x > r else r
        return r
    return f


# ---- scipy.linalg -----------------------------------------------------------------------
class LinAlgError(Exception):
    pass


def _sq(a, what):
    a = as_arr(a)
    d = a.dims()
    if len(d) != 2:
        raise Failed("shape", "%s of a rank %d array" % (what, len(d)))
    if not same_dim(d[0], d[1]):
        raise Failed("shape", "%s of a non-square matrix %s" % (what, d))
    return a


@used("scipy.linalg.pinv")
def pinv(a, *x, **k):
    a = as_arr(a)
    d = a.dims()
    if not same_dim(d[0], d[1]):
        raise Unsupported("pinv of a non-square matrix")
    ASSUME.add("matrices that are inverted (pinv/solve/lstsq) are nonsingular")
    return new_arr(inv(data_mat(a)), (d[1], d[0]))


@used("scipy.linalg.inv")
def linv(a, **k):
    a = _sq(a, "inv")
    ASSUME.add("matrices that are inverted (pinv/solve/lstsq) are nonsingular")
    return new_arr(inv(data_mat(a)), a.dims())


@used("numpy.linalg.solve")
def solve(a, b, **k):
    a = _sq(a, "solve")
    b = as_arr(b)
    ASSUME.add("matrices that are inverted (pinv/solve/lstsq) are nonsingular")
    if k.get("lower") is not None or k.get("trans") or k.get("transposed"):
        pass
    if k.get("trans") or k.get("transposed"):
        raise Unsupported("transposed solve")
    return new_arr(inv(data_mat(a)) @ data_mat(b), b.dims())


@used("scipy.linalg.solve_triangular")
def solve_triangular(a, b, trans=0, lower=False, **k):
    a = _sq(a, "solve_triangular")
    b = as_arr(b)
    m = data_mat(a)
    # only the named triangle is read: the matrix must be known to be triangular
    ok = False
    s = m.single()
    if s and len(s[1]) == 1 and s[1][0][0].kind == "tri":
        ok = s[1][0][1] == bool(lower)
    if not ok:
        raise Unsupported("solve_triangular of a general matrix")
    if trans in (1, "T"):
        m = m.T
    return new_arr(inv(m) @ data_mat(b), b.dims())


@used("scipy.linalg.lstsq")
def lstsq(a, b, **k):
    a = as_arr(a)
    d = a.dims()
    if not same_dim(d[0], d[1]):
        raise Unsupported("lstsq of a non-square system")
    b = as_arr(b)
    ASSUME.add("matrices that are inverted (pinv/solve/lstsq) are nonsingular")
    return (new_arr(inv(data_mat(a)) @ data_mat(b), b.dims()), None, None, None)


def chol_factor(a, upper=True):
    """upper triangular U with U'U = a"""
    m = data_mat(a)
    if not alg.equal(m, m.T):
        if not alg.havoc(m):
            raise Failed("precondition", "Cholesky factor of a matrix that is not symmetric")
        # loop state not yet identified: some function of the (upper triangle of the) matrix; the
        # rule U'U = a applies to symmetric matrices only (alg.r_tri)
        if not upper:
            raise Unsupported("Cholesky factor of an unidentified loop value")
    ASSUME.add("matrices given to the Cholesky factorisation are positive definite")
    return tri("chol", m)


@used("scipy.linalg.cholesky")
def cholesky(a, lower=False, **k):
    a = _sq(a, "cholesky")
    U = chol_factor(a)
    return new_arr(U.T if lower else U, a.dims())


@used("numpy.linalg.cholesky")
def np_cholesky(a, upper=False):
    a = _sq(a, "cholesky")
    U = chol_factor(a, False)
    return new_arr(U if upper else U.T, a.dims())


def qr_R(m, n):
    """n x n upper triangular R with R'R = m'm"""
    return alg.tri_blocks(("qr", m), m.T @ m)


class Opaque:
    def __init__(self, what):
        self.what = what

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(self.what)

    def __getitem__(self, k):
        raise Unsupported(self.what)


@used("scipy.linalg.qr")
def sp_qr(a, overwrite_a=False, lwork=None, mode="full", **k):
    a = as_arr(a)
    N, L = a.dims()
    if decide(f_ge(N, L)) is not True:
        raise Unsupported("qr of a wide matrix")
    m = data_mat(a)
    R = qr_R(m, L)
    Q = Opaque("orthogonal factor")
    ASSUME.add("linalg.qr returns an upper triangular R with R'R = A'A")
    if mode in ("full", "r") and not same_dim(N, L):
        Rf = new_arr(J(N, ZERO, L) @ R, (N, L))
    else:
        Rf = new_arr(R, (L, L))
    return (Rf,) if mode == "r" else (Q, Rf)


@used("numpy.linalg.qr")
def np_qr(a, mode="reduced"):
    a = as_arr(a)
    N, L = a.dims()
    if decide(f_ge(N, L)) is not True:
        raise Unsupported("qr of a wide matrix")
    m = data_mat(a)
    R = qr_R(m, L)
    if mode == "r":
        return new_arr(R, (L, L))
    if mode == "reduced":
        return (Opaque("orthogonal factor"), new_arr(R, (L, L)))
    return (Opaque("orthogonal factor"), new_arr(J(N, ZERO, L) @ R, (N, L)))


@used("scipy.linalg.block_diag")
def block_diag(*arrs):
    arrs = [as_arr(a) for a in arrs]
    arrs = [a if a.ndim == 2 else _atleast(a, 2) for a in arrs]
    R, C = ZERO, ZERO
    for a in arrs:
        R, C = R + a.dims()[0], C + a.dims()[1]
    out = Mat.zero(R, C)
    r, c = ZERO, ZERO
    for a in arrs:
        d = a.dims()
        out = out + J(R, r, d[0]) @ data_mat(a) @ J(C, c, d[1]).T
        r, c = r + d[0], c + d[1]
    return new_arr(out, (R, C))


def logdet(m):
    return sc_fn("logdet", m)


@used("numpy.linalg.slogdet")
def slogdet(a):
    a = _sq(a, "slogdet")
    return (1.0, SReal(logdet(data_mat(a))))


@used("numpy.linalg.det")
def det(a, **k):
    a = _sq(a, "det")
    return SReal(sc_fn("det", data_mat(a)))


# ---- masked arrays -----------------------------------------------------------------------
@used("numpy.ma.getmask")
def getmask(x):
    if isinstance(x, Arr) and x.mk is not None:
        return MaskVal(x.mk, x)
    if isinstance(x, SReal) and x.mk is not None:
        return mk_bool(x.mk.any_formula())
    return False


@used("numpy.ma.getmaskarray")
def getmaskarray(x):
    if isinstance(x, Arr):
        return MaskVal(x.mk if x.mk is not None else Mask(const=False), x)
    return False


@used("numpy.ma.is_masked")
def is_masked(x):
    if isinstance(x, Arr) and x.mk is not None:
        return mk_bool(x.mk.any_formula())
    if isinstance(x, SReal) and x.mk is not None:
        return mk_bool(x.mk.any_formula())
    return False


def _ma(x, mask, share):
    a = as_arr(x) if not isinstance(x, Flex) else x.resolve()
    r = a if share else copy_arr(a)
    r = Arr(r.st, r.tr, r.parent, r.sel, r.mk, r._sh)
    if r.mk is None:
        r.mk = Mask(const=False)
    if mask is True or mask is False:
        if r.mk.const is False:
            r.mk = Mask(const=mask)
        elif mask is True:
            r.mk = Mask(const=True)
    elif isinstance(mask, MaskVal):
        if r.mk.const is False:
            r.mk = mask.m
        elif r.mk is not mask.m:
            raise Unsupported("combination of masks")
    elif mask is not None:
        raise Unsupported("explicit mask")
    return r


@used("numpy.ma.array")
def ma_array(x, dtype=None, copy=False, mask=None, **k):
    return _ma(x, mask, not copy)


@used("numpy.ma.asarray")
def ma_asarray(x, dtype=None):
    if _dtype_kind(dtype) is not None:
        raise Unsupported("ma.asarray dtype")
    a = as_arr(x) if not isinstance(x, Flex) else x.resolve()
    if a.mk is not None:
        return a
    return _ma(a, None, True)


@used("numpy.ma.atleast_2d")
def ma_atleast_2d(x):
    a = _atleast(x, 2, True)
    if a.mk is None:
        a = Arr(a.st, a.tr, a.parent, a.sel, Mask(const=False), a._sh)
    return a


# ---- random generators ---------------------------------------------------------------------
class Rng:
    """a random generator; every draw is a fresh symbolic value recorded in ST.draws"""

    def __init__(self, key):
        self.key = key
        self.n = 0

    def multivariate_normal(self, mean, cov, size=None, **k):
        USED.add("RandomState.multivariate_normal")
        if size is not None:
            raise Unsupported("sized draws")
        mean, cov = as_arr(mean), as_arr(cov)
        d = mean.dims()
        if len(d) != 1 or len(cov.dims()) != 2:
            raise Failed("shape", "multivariate_normal needs a vector and a matrix")
        if not (same_dim(cov.dims()[0], d[0]) and same_dim(cov.dims()[1], d[0])):
            raise Failed("shape", "mean and covariance of a draw do not match")
        return ST.new_draw(self, data_mat(mean), data_mat(cov), d[0])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("RandomState.%s" % k)


class _RSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Rng)

    def __call__(cls, seed=None):
        if seed is None:
            raise Unsupported("unseeded RandomState")
        return Rng(("seed", repr(seed)))


class RandomStateT(metaclass=_RSMeta):
    pass


GLOBAL_RNG = Rng("global")


def build():
    """fresh fake modules"""
    la = {"pinv": pinv, "inv": linv, "solve": solve, "lstsq": lstsq, "cholesky": cholesky, "qr": sp_qr,
          "block_diag": block_diag, "LinAlgError": LinAlgError, "solve_triangular": solve_triangular, "det": det}
    nla = {"pinv": pinv, "inv": linv, "solve": solve, "lstsq": lstsq, "cholesky": np_cholesky, "qr": np_qr,
           "LinAlgError": LinAlgError, "slogdet": slogdet, "det": det}
    ma = {"getmask": getmask, "getmaskarray": getmaskarray, "is_masked": is_masked, "array": ma_array,
          "masked_array": ma_array, "asarray": ma_asarray, "asanyarray": ma_asarray, "atleast_2d": ma_atleast_2d,
          "nomask": False}
    mtrand = Mod("numpy.random.mtrand", {"_rand": GLOBAL_RNG})
    random = Mod("numpy.random", {"mtrand": mtrand, "RandomState": RandomStateT})
    M_ma, M_nla = Mod("numpy.ma", ma), Mod("numpy.linalg", nla)
    npd = {"asarray": asarray, "array": array, "atleast_1d": atleast_1d, "atleast_2d": atleast_2d, "zeros": zeros,
           "empty": empty, "ones": np_ones, "full": full, "eye": eye, "identity": lambda n: eye(n),
           "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like, "copy": np_copy, "dot": dot,
           "matmul": matmul, "outer": outer, "diag": np_diag, "diagonal": np_diagonal, "trace": trace,
           "transpose": transpose, "concatenate": concatenate, "hstack": hstack, "vstack": vstack, "stack": stack,
           "column_stack": column_stack, "tile": tile, "repeat": repeat, "sqrt": np_sqrt, "log": np_log, "exp": np_exp,
           "square": square, "abs": np_abs, "absolute": np_abs, "fabs": np_abs, "sign": np_sign, "sum": sum_,
           "mean": mean, "any": any_, "all": all_, "triu": triu, "allclose": allclose, "array_equal": array_equal,
           "squeeze": squeeze, "expand_dims": expand_dims, "arange": arange, "isscalar": isscalar, "shape": np_shape,
           "ndim": np_ndim, "einsum": einsum, "newaxis": None, "pi": SReal(alg.PI), "float64": FLOAT, "double": FLOAT,
           "integer": IntT, "int64": IntT, "ndarray": NdArrayT, "ma": M_ma, "linalg": M_nla, "random": random,
           "inner": lambda a, b: np_dot(a, coerce(b).T if coerce(b).ndim == 2 else b), "vdot": lambda a, b: np_dot(a, b),
           "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
           "divide": lambda a, b: a / b, "asanyarray": asarray, "ascontiguousarray": asarray,
           "reshape": lambda a, s: reshape(as_arr(a), s if isinstance(s, (tuple, list)) else (s,)),
           "ravel": lambda a: as_arr(a).ravel(), "bool_": bool, "__version__": "2.0"}
    np = Mod("numpy", npd)
    sp_la = Mod("scipy.linalg", la)
    mods = {"numpy": np, "numpy.ma": M_ma, "numpy.linalg": M_nla, "numpy.random": random,
            "scipy": Mod("scipy", {"linalg": sp_la}), "scipy.linalg": sp_la}
    deps = Mod("skbase.utils.dependencies", {"_check_soft_dependencies": lambda *a, **k: True})
    mods["skbase"] = Mod("skbase", {"utils": Mod("skbase.utils", {"dependencies": deps})})
    mods["skbase.utils"] = mods["skbase"].utils
    mods["skbase.utils.dependencies"] = deps
    return mods


# the array type test isinstance(x, np.ndarray)
class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, Flex, ObjVec, UFunSeq))


class NdArrayT(metaclass=_ArrMeta):
    pass


class SymNames:
    """an arbitrary collection of names; membership of each name is undetermined"""

    def __init__(self, tag="sel"):
        self.tag = tag

    def __contains__(self, k):
        if not isinstance(k, str):
            return False
        return branch((self.tag, k))

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        return self is o

    __hash__ = object.__hash__

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary set of names")


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SymNames))

    def __call__(cls, x=()):
        if isinstance(x, SymNames):
            return x
        return builtins.set(x)


class SetT(metaclass=_SetMeta):
    pass
