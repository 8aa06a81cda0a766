"""Symbolic run-time values.  The functions of /repo are executed by CPython itself on these
values (module `loader` compiles the current source); `loops` supplies the loop rule.

Arithmetic is exact real arithmetic; integers are mathematical integers.
"""
from fractions import Fraction as Fr
import builtins

from . import alg
from .alg import Mat, Sc, Node, E, J, diag, ewise, inv, ones, rows, sc_fn, sc_sqrt, subst
from .lin import (ACTIVE, Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_lt, f_not, f_or)


class Unsupported(Exception):
    """the construct is outside the fragment the verifier understands (undecided)"""


class Restart(BaseException):
    """re-run the enclosing path with the first iteration of the named loop peeled"""

    def __init__(self, where):
        BaseException.__init__(self, where)
        self.where = where


class Poison:
    """a variable whose value at the start of a general iteration has no uniform type"""

    def __init__(self, where):
        object.__setattr__(self, "_w", where)

    def _use(self, *a, **k):
        w = object.__getattribute__(self, "_w")
        if isinstance(w, tuple):
            raise Restart(w)
        if w is None or w in ST.peel:
            raise Unsupported("use of a variable without a uniform type across iterations")
        raise Restart(w)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._use()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _use
    __matmul__ = __rmatmul__ = __pow__ = __getitem__ = __setitem__ = __len__ = __iter__ = __bool__ = _use
    __lt__ = __le__ = __gt__ = __ge__ = __call__ = __iadd__ = __isub__ = __float__ = __int__ = __index__ = _use
    __eq__ = __ne__ = _use
    __hash__ = object.__hash__


UNDEF = Poison(None)


class Failed(Exception):
    """an implicit obligation (shape, bounds, frame, dtype) is refuted"""

    def __init__(self, what, msg):
        Exception.__init__(self, "%s: %s" % (what, msg))
        self.what, self.msg = what, msg


# ------------------------------------------------------------------- run state
class State:
    """journal of heap effects and the obligations recorded on the current run"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.journal = []
        self.clock = 0
        self.loops = []
        self.frame_log = []
        self.draws = []
        self.guide, self.guide_out = None, []
        if not hasattr(self, "peel"):
            self.peel = set()

    def tick(self):
        self.clock += 1
        return self.clock

    def new_draw(self, rng, mean, cov, n):
        """mean + noise, the noise named by the generator, its covariance, the iteration of the enclosing loops
        and the number of earlier draws from this generator with that covariance in the same iteration:
        no two draws get the same name"""
        loops = [l for l in self.loops if l.mode == "symbolic"]
        items, m = [], {}
        for k, l in enumerate(loops):
            i = Lin.of(l.item) if is_intlike(l.item) else None
            if i is None or not (i - l.v).is_const():
                i = l.v + l.off
            items.append(i)
            m[l.vname] = Lin.of("~d%d" % k) - (i - l.v)
        pat = subst(cov, m)
        occ = sum(1 for r, p in self._plain(self.draws) if r is rng and p == pat)
        self.draws.append((rng, pat))
        return new_arr(mean + noise(rng.key, cov, n, items, occ), (n,))

    def _plain(self, ds):
        for d in ds:
            while d[0] == "loop":
                d = d[4]
            yield d


def noise(key, cov, n, its=(), occ=0):
    """the zero-mean normal vector of one draw"""
    return alg.app(("draw", key, occ, len(its)), [cov], n, tuple(its))


ST = State()


def frame_violation(what, msg):
    raise Failed(what, msg)


# ------------------------------------------------------------------- integers / booleans
def mk_int(l):
    l = Lin.of(l)
    return l.c if l.is_const() else SInt(l)


def is_intlike(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, bool)


class SBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return branch(self.f)

    def any(self, *a, **k):
        return self

    all = any

    def __invert__(self):
        return mk_bool(f_not(self.f))

    def __and__(self, o):
        return mk_bool(f_and(self.f, as_formula(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(f_or(self.f, as_formula(o)))

    __ror__ = __or__

    def __repr__(self):
        return "SBool(%r)" % (self.f,)


def as_formula(x):
    if isinstance(x, SBool):
        return x.f
    if isinstance(x, bool):
        return x
    raise Unsupported("boolean operand %r" % (x,))


def mk_bool(f):
    if f is True or f is False:
        return f
    d = decide(f) if ctx() is not None else None
    return d if d is not None else SBool(f)


class SInt:
    __slots__ = ("lin",)

    def __init__(self, l):
        self.lin = Lin.of(l)

    def __hash__(self):
        return hash(self.lin)

    def _bin(self, o, f):
        if is_intlike(o):
            return mk_int(f(self.lin, Lin.of(o)))
        return NotImplemented

    def __add__(self, o):
        if is_intlike(o):
            return mk_int(self.lin + Lin.of(o))
        return SReal(Sc.of(self.lin)) + o if _scalarish(o) else NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return mk_int(-self.lin)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if is_intlike(o):
            return mk_int(self.lin - Lin.of(o))
        return SReal(Sc.of(self.lin)) - o if _scalarish(o) else NotImplemented

    def __rsub__(self, o):
        if is_intlike(o):
            return mk_int(Lin.of(o) - self.lin)
        return o - SReal(Sc.of(self.lin)) if _scalarish(o) else NotImplemented

    def __mul__(self, o):
        if is_intlike(o):
            try:
                return mk_int(self.lin * Lin.of(o))
            except ValueError:
                return SReal(Sc.of(self.lin) * Sc.of(Lin.of(o)))
        return SReal(Sc.of(self.lin)) * o if _scalarish(o) else NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        return SReal(Sc.of(self.lin)) / o

    def __rtruediv__(self, o):
        return o / SReal(Sc.of(self.lin)) if not isinstance(o, Arr) else NotImplemented

    def __pow__(self, k):
        return SReal(Sc.of(self.lin)) ** k

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: f_not(f_ge(a, b)))

    def __ge__(self, o):
        return self._cmp(o, f_ge)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: f_not(f_ge(b, a)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: f_ge(b, a))

    def __eq__(self, o):
        if is_intlike(o):
            return mk_bool(f_eq(self.lin, Lin.of(o)))
        if isinstance(o, float) and o == int(o):
            return mk_bool(f_eq(self.lin, Lin(int(o))))
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(f_not(r.f))

    def _cmp(self, o, f):
        if is_intlike(o):
            return mk_bool(f(self.lin, Lin.of(o)))
        if isinstance(o, float) and o == int(o):
            return mk_bool(f(self.lin, Lin(int(o))))
        if isinstance(o, SReal):
            return NotImplemented
        return NotImplemented

    def __bool__(self):
        return branch(f_not(f_eq(self.lin, ZERO)))

    def __abs__(self):
        return self if branch(f_ge(self.lin, ZERO)) else -self

    def __repr__(self):
        return "SInt(%r)" % self.lin

    __str__ = __repr__


def _scalarish(o):
    return isinstance(o, (int, float, SInt, SReal)) and not isinstance(o, bool)


# ------------------------------------------------------------------- reals
class SReal:
    """real scalar (also plays the role of numpy scalars)"""
    __slots__ = ("s", "mk")
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 0

    def __init__(self, s, mask=None):
        self.s = Sc.of(s)
        self.mk = mask

    def __hash__(self):
        return hash(self.s)

    def _o(self, o):
        if isinstance(o, SReal):
            return o.s
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return Sc.of(o)
        if isinstance(o, SInt):
            return Sc.of(o.lin)
        return None

    def __add__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(self.s + v)

    __radd__ = __add__

    def __sub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(self.s - v)

    def __rsub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(v - self.s)

    def __mul__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(self.s * v)

    __rmul__ = __mul__

    def __truediv__(self, o):
        v = self._o(o)
        if v is None:
            return NotImplemented
        return SReal(self.s / v)

    def __rtruediv__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(v / self.s)

    def __neg__(self):
        return SReal(-self.s)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(k, int):
            return SReal(self.s ** k)
        if k == 0.5:
            return SReal(sc_sqrt(self.s))
        raise Unsupported("power %r" % (k,))

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, op):
        v = self._o(o)
        if v is None:
            return NotImplemented
        return mk_bool(f_scmp(self.s - v, op))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(f_not(r.f))

    def __bool__(self):
        return bool(self != 0)

    def dot(self, o):
        return self * o

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def ravel(self):
        return new_arr(Mat.scalar(self.s), (1,))

    def __repr__(self):
        return "SReal(%r)" % (self.s,)


def f_scmp(s, op):
    """formula for  s op 0"""
    v = s.const_value()
    if v is not None:
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0}[op]
    # integer-valued linear expressions are decided as integers
    l = _sc_lin(s)
    if l is not None:
        return {"<": f_lt(l, ZERO), "<=": f_ge(-l, ZERO), ">": f_lt(-l, ZERO), ">=": f_ge(l, ZERO),
                "==": f_eq(l, ZERO)}[op]
    if op == ">":
        return ("spos", s)
    if op == "<":
        return ("spos", -s)
    if op == "<=":
        return f_not(("spos", s))
    if op == ">=":
        return f_not(("spos", -s))
    return f_and(f_not(("spos", s)), f_not(("spos", -s)))


def _sc_lin(s):
    if not (len(s.d) == 1 and () in s.d):
        return None
    c, t = Fr(0), {}
    for m, k in s.n.items():
        if m == ():
            c += k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "dim":
            t[m[0][0].args[0]] = k
        else:
            return None
    den = 1
    for x in [c] + list(t.values()):
        den = den * x.denominator // __import__("math").gcd(den, x.denominator)
    return Lin(int(c * den), {a: int(b * den) for a, b in t.items()})


def to_sc(x):
    if isinstance(x, SReal):
        return x.s
    if isinstance(x, SInt):
        return Sc.of(x.lin)
    if isinstance(x, bool):
        return Sc.of(int(x))
    if isinstance(x, (int, float, Fr)):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            raise Unsupported("non-finite constant")
        return Sc.of(x)
    if isinstance(x, Sc):
        return x
    if isinstance(x, Arr) and x.ndim == 0:
        return x.mat().as_scalar()
    raise Unsupported("scalar expected, got %s" % type(x).__name__)


# ------------------------------------------------------------------- storage
class Storage:
    """contents of an array.

    base: ('mat', Mat) for rank <= 2, ('fam', fn) where fn(Lin) is the entry at a first-axis
    index; log: later writes along `axis` (newest last).
    """
    __slots__ = ("rank", "shape", "base", "log", "axis", "dtype", "owner", "birth", "name", "whole",
                 "version", "carry")

    def __init__(self, shape, base, dtype="f", owner=None, name=None):
        self.shape = tuple(Lin.of(s) for s in shape)
        self.rank = len(self.shape)
        self.base, self.log, self.axis = base, [], 0
        self.dtype, self.owner, self.name = dtype, owner, name
        self.birth = ST.tick()
        self.whole = False
        self.version = 0
        self.carry = None

    def snap(self):
        return (self.base, list(self.log), self.axis, self.whole, self.carry)

    def restore(self, s):
        self.base, self.log, self.axis, self.whole, self.carry = s[0], list(s[1]), s[2], s[3], s[4]
        self.version += 1

    def touch(self):
        """announce a mutation"""
        if self.owner is not None:
            frame_violation("frame", "%s is modified in place" % self.owner)
        ST.journal.append(("st", self, self.snap()))
        self.version += 1


class Write:
    __slots__ = ("idx", "val")

    def __init__(self, idx, val):
        self.idx, self.val = idx, val


class LoopWrite:
    """for var in [lo,hi): X[idx(var)] = value of the case whose guard holds"""
    __slots__ = ("var", "lo", "hi", "idx", "cases", "total")

    def __init__(self, var, lo, hi, idx, cases, total):
        self.var, self.lo, self.hi, self.idx, self.cases, self.total = var, lo, hi, idx, cases, total

    def solve(self, i):
        """the loop value that writes index i"""
        k = dict(self.idx.t).get(self.var)
        rest = self.idx - Lin(0, ((self.var, k),))
        if k == 1:
            return i - rest
        if k == -1:
            return rest - i
        raise Unsupported("loop write with stride %s" % k)


_cnt = [0]


def fresh(prefix):
    _cnt[0] += 1
    return "%s~%d" % (prefix, _cnt[0])


# ------------------------------------------------------------------- masks
class Mask:
    """mask of a masked array: rows of the observation sequence `zid` (idx None: the whole
    sequence); 'const' masks are known"""
    __slots__ = ("zid", "idx", "const", "pos")

    def __init__(self, zid=None, idx=None, const=None):
        self.zid, self.idx, self.const = zid, idx, const

    def any_formula(self):
        if self.const is not None:
            return self.const
        if self.idx is None:
            return ("maskrange", self.zid)
        return ("anymask", self.zid, self.idx)

    def all_formula(self):
        if self.const is not None:
            return self.const
        if self.idx is None:
            return ("maskrangeall", self.zid)
        return ("allmask", self.zid, self.idx)

    def row(self, i):
        if self.const is not None:
            return Mask(const=self.const)
        if self.idx is not None:
            return MaskElem(self)
        return Mask(self.zid, i)


class MaskElem(Mask):
    __slots__ = ()

    def __init__(self, m):
        Mask.__init__(self, m.zid, m.idx, None)

    def any_formula(self):
        return ("elemmask", self.zid, self.idx)


class MaskVal:
    """the value of getmask(x)"""

    def __init__(self, mask, arr):
        self.m, self.arr = mask, arr

    @property
    def shape(self):
        return self.arr.shape

    ndim = property(lambda self: self.arr.ndim)

    def any(self, axis=None, **k):
        if axis is not None:
            return AnyRows(self.m, axis)
        return mk_bool(self.m.any_formula())

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("mask.all(axis)")
        return mk_bool(self.m.all_formula())

    def __bool__(self):
        raise Unsupported("truth value of a mask array")

    def __getitem__(self, i):
        r = self.arr[i]
        if isinstance(r, Arr):
            return MaskVal(r.mk, r)
        if isinstance(r, SReal) and r.mk is not None:
            return mk_bool(r.mk.any_formula())
        raise Unsupported("indexing of a mask")

    def sum(self, *a, **k):
        raise Unsupported("mask.sum")

    def __invert__(self):
        raise Unsupported("inverted mask array")


class AnyRows:
    """mask.any(axis=1): one boolean per row"""

    def __init__(self, m, axis):
        if axis not in (1, -1) or m.idx is not None:
            raise Unsupported("mask.any(axis=%r)" % (axis,))
        self.m = m

    def __getitem__(self, i):
        return mk_bool(self.m.row(Lin.of(i)).any_formula())


# ------------------------------------------------------------------- arrays
def shp(t):
    return tuple(mk_int(x) for x in t)


def dims(t):
    if is_intlike(t) or isinstance(t, Lin):
        t = (t,)
    out = []
    for x in t:
        if isinstance(x, Lin):
            out.append(x)
            continue
        if not is_intlike(x):
            raise Unsupported("shape entry %r" % (x,))
        out.append(Lin.of(x))
    return tuple(out)


def same_dim(a, b):
    return a == b or ctx().equal(a, b) is True


class Arr:
    """array value: whole storage, transposed storage, or a lazily evaluated view"""
    __slots__ = ("st", "tr", "parent", "sel", "mk", "_sh", "_cache", "sub")
    __array_priority__ = 100
    __hash__ = object.__hash__

    def __init__(self, st=None, tr=False, parent=None, sel=None, mask=None, sh=None):
        self.st, self.tr, self.parent, self.sel, self.mk = st, tr, parent, sel, mask
        self._sh = sh
        self._cache = None

    # ---- structure
    def dims(self):
        if self._sh is None:
            s = self.st.shape
            self._sh = tuple(reversed(s)) if self.tr else s
        return self._sh

    @property
    def shape(self):
        return shp(self.dims())

    @property
    def ndim(self):
        return len(self.dims())

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    def root(self):
        a = self
        while a.st is None:
            a = a.parent
        return a.st

    @property
    def dtype(self):
        return DType(self.root().dtype)

    @property
    def mask(self):
        if self.mk is None:
            return False if not getattr(self.root(), "ma", False) else False
        return MaskVal(self.mk, self)

    @mask.setter
    def mask(self, v):
        if self.root().owner is not None:
            frame_violation("frame", "the mask of %s is modified" % self.root().owner)
        ST.journal.append(("mk", self, self.mk))
        if v is True or v is False:
            self.mk = Mask(const=v)
        elif isinstance(v, MaskVal):
            self.mk = v.m
        else:
            raise Unsupported("mask assignment")

    @property
    def data(self):
        return Arr(self.st, self.tr, self.parent, self.sel, None, self._sh)

    def is_owned(self):
        return self.root().owner is not None

    # ---- contents
    def mat(self):
        """contents as a Mat (rank 1: column vector)"""
        st = self.root()
        c = self._cache
        if c is not None and c[0] == st.version and c[1] == len(ctx().facts):
            return c[2]
        m = self._mat()
        self._cache = (st.version, len(ctx().facts), m)
        return m

    def _mat(self):
        if self.st is not None:
            m = storage_mat(self.st)
            return m.T if self.tr else m
        return self.sel.read(self.parent)

    def vec(self):
        return self.mat()

    def entry(self, i):
        """first-axis entry i (Lin) as a value: Mat for rank >= 1 entries, object otherwise"""
        if self.st is not None and not self.tr:
            return storage_entry(self.st, i)
        if self.ndim == 2 and self.st is not None and self.tr and self.st.axis == 1:
            return storage_entry(self.st, i, axis=1)
        if self.parent is not None:
            r = self.sel.entry(self.parent, i)
            if r is not None:
                return r
        m = self.mat()
        if self.ndim == 1:
            return (E(self.dims()[0], i).T @ m)
        return m.T @ E(self.dims()[0], i)

    def sc(self, i):
        return self.entry(Lin.of(i)).as_scalar()

    # ---- python protocol
    def __len__(self):
        n = self.dims()[0]
        if n.is_const():
            return n.c
        raise Unsupported("len() outside of the instrumented modules")

    def __iter__(self):
        n = self.dims()[0]
        if not n.is_const():
            raise Unsupported("iteration over a symbolic array outside of a loop")
        return iter([self[i] for i in range(n.c)])

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    @property
    def T(self):
        if self.ndim <= 1:
            return self
        if self.ndim == 2:
            if self.st is not None:
                return Arr(self.st, not self.tr, mask=self.mk)
            return Arr(parent=self, sel=TSel(), mask=self.mk, sh=tuple(reversed(self.dims())))
        raise Unsupported("transpose of a rank %d array" % self.ndim)

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    def copy(self, *a, **k):
        return copy_arr(self)

    def dot(self, o):
        return np_dot(self, o)

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(o, self)

    def ravel(self, *a):
        return self.reshape(-1)

    def flatten(self):
        return self.ravel().copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def astype(self, dt, **k):
        r = copy_arr(self)
        if dt in (float, "float", "d", "f8") or getattr(dt, "k", None) == "f" or getattr(dt, "_is_float", False):
            r.st.dtype = "f"
            return r
        raise Unsupported("astype(%r)" % (dt,))

    def view(self, *a):
        if a and not isinstance(a[0], DType):
            raise Unsupported("view(%r)" % (a[0],))
        return Arr(self.st, self.tr, self.parent, self.sel, self.mk, self._sh)

    def newbyteorder(self, *a):
        return self

    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def any(self, *a, **k):
        raise Unsupported("array.any")

    all = any

    def fill(self, v):
        setitem(self, slice(None), v)

    def tolist(self):
        return list(self)

    def item(self):
        return SReal(self.mat().as_scalar())

    def diagonal(self):
        return np_diagonal(self)

    def __add__(self, o):
        return ew_lin(self, o, 1, 1)

    def __radd__(self, o):
        return ew_lin(self, o, 1, 1)

    def __sub__(self, o):
        return ew_lin(self, o, 1, -1)

    def __rsub__(self, o):
        return ew_lin(self, o, -1, 1)

    def __neg__(self):
        return new_arr(-self.mat(), self.dims(), self.root().dtype, mask=self.mk)

    def __pos__(self):
        return self

    def __mul__(self, o):
        return ew_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return ew_div(self, o)

    def __rtruediv__(self, o):
        return ew_rdiv(o, self)

    def __pow__(self, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if k == 2:
            return ew_mul(self, self)
        if k == 1:
            return copy_arr(self)
        raise Unsupported("elementwise power %r" % (k,))

    def __iadd__(self, o):
        return inplace(self, self + o)

    def __isub__(self, o):
        return inplace(self, self - o)

    def __imul__(self, o):
        return inplace(self, self * o)

    def __itruediv__(self, o):
        return inplace(self, self / o)

    def _cmpu(self, o):
        raise Unsupported("elementwise comparison")

    __lt__ = __le__ = __gt__ = __ge__ = _cmpu

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        raise Unsupported("elementwise comparison")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        raise Unsupported("elementwise comparison")

    def __repr__(self):
        return "Arr%r" % (self.shape,)


class DType:
    def __init__(self, k):
        self.k = k

    def newbyteorder(self, *a):
        return self

    @property
    def kind(self):
        if self.k == "user":
            raise Unsupported("dtype of a user array")
        return self.k

    def __eq__(self, o):
        if self.k == "user":
            raise Unsupported("dtype of a user array")
        if o is object:
            return self.k == "o"
        if o is float or isinstance(o, DType) and o.k == "f":
            return self.k == "f"
        raise Unsupported("dtype comparison")

    __hash__ = None


# ---- creation ----------------------------------------------------------------
def new_arr(m, shape, dtype="f", mask=None):
    sh = dims(tuple(shape)) if not all(isinstance(s, Lin) for s in shape) else tuple(shape)
    if len(sh) == 0:
        return SReal(m.as_scalar())
    return Arr(Storage(sh, ("mat", m), dtype), mask=mask)


def new_fam(shape, fn, dtype="f", owner=None, name=None, mask=None):
    return Arr(Storage(dims(shape), ("fam", fn), dtype, owner, name), mask=mask)


def param_arr(m, shape, owner, dtype="user", mask=None):
    a = Arr(Storage(dims(shape), ("mat", m), dtype, owner, owner), mask=mask)
    return a


def zeros_mat(sh):
    if len(sh) == 1:
        return Mat.zero(sh[0], ONE)
    if len(sh) == 2:
        return Mat.zero(sh[0], sh[1])
    raise Unsupported("rank %d matrix" % len(sh))


def zeros_arr(shape, dtype="f"):
    sh = dims(shape)
    if len(sh) == 0:
        return SReal(0)
    if dtype == "o":
        return Arr(Storage(sh, ("fam", lambda i: 0), "o"))
    if len(sh) <= 2:
        return Arr(Storage(sh, ("mat", zeros_mat(sh)), dtype))
    if len(sh) == 3:
        z = Mat.zero(sh[1], sh[2])
        return Arr(Storage(sh, ("fam", lambda i: z), dtype))
    raise Unsupported("rank %d array" % len(sh))


def copy_arr(a):
    st = a.root()
    if a.st is not None and not a.tr:
        s = Storage(st.shape, st.base, st.dtype)
        s.log, s.axis, s.whole, s.carry = list(st.log), st.axis, st.whole, st.carry
        return Arr(s, mask=a.mk)
    if a.ndim == 3:
        snap = freeze3(a)
        return new_fam(a.shape, snap, st.dtype)
    return new_arr(a.mat(), a.dims(), st.dtype, mask=a.mk)


def freeze3(a):
    if a.st is not None:
        s = Storage(a.st.shape, a.st.base, a.st.dtype)
        s.log = list(a.st.log)
        return lambda i: storage_entry(s, i)
    sel, parent = a.sel, a.parent
    return lambda i: sel.entry(parent, i)


def as_arr(x):
    """numpy.asarray"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, Flex):
        return x.resolve()
    if isinstance(x, (SReal, SInt, int, float)) and not isinstance(x, bool):
        return Arr(Storage((), ("mat", Mat.scalar(to_sc(x))), "f"))
    if isinstance(getattr(x, "sym", None), SymList):
        return x.sym.to_array()
    if isinstance(x, (list, tuple)):
        items = list(x)
        if not items:
            return Arr(Storage((0,), ("mat", Mat.zero(ZERO, ONE)), "f"))
        if all(_scalarish(i) for i in items):
            n = Lin(len(items))
            m = Mat.zero(n, ONE)
            for k, it in enumerate(items):
                m = m + (E(n, k).scale(to_sc(it)) if n != ONE else Mat.scalar(to_sc(it)))
            return new_arr(m, (n,))
        if all(isinstance(i, Arr) and i.ndim == 1 for i in items):
            return np_stack_rows(items)
        if all(isinstance(i, Arr) and i.ndim == 2 for i in items):
            n = Lin(len(items))
            vals = [i.mat() for i in items]

            def fn(i):
                for k, v in enumerate(vals):
                    if branch(f_eq(i, Lin(k))):
                        return v
                raise Failed("bounds", "index out of range")
            return new_fam((n,) + items[0].dims(), fn)
        if any(callable(i) for i in items) or any(hasattr(i, "__dict__") for i in items):
            return ObjVec(items)
        if all(isinstance(i, (list, tuple)) for i in items):
            return np_stack_rows([as_arr(i) for i in items])
    if isinstance(x, SymList):
        return x.to_array()
    if getattr(x, "sym", None) is not None and isinstance(x, list):
        return x.sym.to_array()
    if hasattr(x, "as_array"):
        return x.as_array()
    raise Unsupported("array conversion of %s" % type(x).__name__)


class ObjVec:
    """1-D object array with concrete contents (e.g. function sequences)"""

    def __init__(self, items):
        self.items = list(items)

    @property
    def shape(self):
        return (len(self.items),)

    ndim = 1

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, int):
            return self.items[i]
        if isinstance(i, slice):
            return ObjVec(self.items[i])
        raise Unsupported("object array index %r" % (i,))

    def __iter__(self):
        return iter(self.items)


class SymList:
    """list of symbolic length n whose i-th element is at(i)"""

    def __init__(self, n, at):
        self.n, self.at = Lin.of(n), at

    def sym_len(self):
        return mk_int(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = slice_bounds(i, self.n)
            at = self.at
            return SymList(hi - lo, lambda k: at(k + lo))
        return self.at(norm_index(i, self.n))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def to_array(self):
        v = fresh("i")
        x = self.at(Lin.of(v))
        if isinstance(x, Arr) and x.ndim == 1:
            return new_arr(rows(self.n, x.mat(), v), (self.n, x.dims()[0]))
        if isinstance(x, Arr) and x.ndim == 2:
            at, sh = self.at, x.dims()
            return new_fam((self.n,) + sh, lambda i: at(i).mat())
        if _scalarish(x):
            return new_arr(rows(self.n, Mat.scalar(to_sc(x)), v), (self.n,))
        raise Unsupported("array of %s" % type(x).__name__)


# ---- reading ------------------------------------------------------------------
def storage_entry(st, i, axis=0):
    """entry i along `axis`; splits the path where the position of i is not determined"""
    if st.log and st.axis != axis:
        m = storage_mat(st)
        return m @ E(st.shape[1], i) if axis == 1 else m.T @ E(st.shape[0], i)
    for w in reversed(st.log):
        if isinstance(w, Write):
            if branch(f_eq(w.idx, i)):
                return w.val
        else:
            s = w.solve(i)
            if branch(f_and(f_ge(s, w.lo), f_lt(s, w.hi))):
                m = {w.var: s}
                for g, val in w.cases:
                    if branch(subst(g, m)):
                        return val_subst(val, m)
                if w.total:
                    raise Unsupported("no case of a loop write applies")
    kind, b = st.base
    if kind == "mat":
        if st.rank == 1:
            return E(st.shape[0], i).T @ b
        return b @ E(st.shape[1], i) if axis == 1 else b.T @ E(st.shape[0], i)
    return b(i)


def val_subst(v, m):
    if isinstance(v, (Mat, Sc)):
        return subst(v, m)
    if hasattr(v, "map_mats"):
        return v.map_mats(lambda x: subst(x, m))
    return obj_map(v, lambda x: subst(x, m))


def obj_map(v, fn):
    """apply fn to every Mat/Sc inside a python value (rebuilding containers and objects)"""
    if isinstance(v, (Mat, Sc)):
        return fn(v)
    if isinstance(v, Arr):
        if v.ndim > 2:
            raise Unsupported("rank 3 array inside an object")
        return new_arr(fn(v.mat()), v.dims(), v.root().dtype, v.mk)
    if isinstance(v, SReal):
        return SReal(fn(v.s))
    if isinstance(v, SInt):
        r = fn(Sc.of(v.lin))
        l = _sc_lin(r)
        return mk_int(l) if l is not None else SReal(r)
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[obj_map(x, fn) for x in v])
    if isinstance(v, (tuple, list)):
        return type(v)(obj_map(x, fn) for x in v)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("pykalman"):
        o = object.__new__(type(v))
        for k, x in vars(v).items():
            object.__setattr__(o, k, obj_map(x, fn))
        return o
    return v


def storage_mat(st):
    kind, b = st.base
    if not st.log:
        if kind == "mat":
            return b
        if st.rank == 1 or st.rank == 2:
            v = fresh("r")
            C = ctx()
            k = C.snapshot()
            C.assume(f_ge(Lin.of(v), ZERO))
            C.assume(f_lt(Lin.of(v), st.shape[0]))
            with no_branching():
                x = b(Lin.of(v))
            m = rows(st.shape[0], x, v)
            C.restore(k)
            return m
        raise Unsupported("rank %d contents as a matrix" % st.rank)
    # pieces: the log must be expressible as disjoint ranges of the axis
    N = st.shape[st.axis]
    if kind == "mat":
        cur = b.T if st.axis == 1 else b
    else:
        cur = storage_mat(_plain(st))
    for w in st.log:
        if isinstance(w, Write):
            e = E(N, w.idx)
            v = w.val
            cur = cur + e @ (v - cur.T @ e).T
        else:
            if len(w.cases) != 1 or not w.total:
                raise Unsupported("guarded loop writes as a matrix")
            g, val = w.cases[0]
            k = dict(w.idx.t).get(w.var)
            if k != 1:
                # reverse index: enumerate by position
                pass
            lo = w.idx.subst({w.var: w.lo if k == 1 else w.hi - 1})
            v = fresh("r")
            vv = val_subst(val, {w.var: w.solve(Lin.of(v) + lo)})
            R = rows(w.hi - w.lo, vv, v)
            j = J(N, lo, w.hi - w.lo)
            cur = cur + j @ (R - j.T @ cur)
    return cur.T if st.axis == 1 else cur


def _plain(st):
    s = Storage(st.shape, st.base, st.dtype)
    return s


class no_branching:
    def __enter__(self):
        self.e = ACTIVE["explorer"]
        ACTIVE["explorer"] = _NB
        return self

    def __exit__(self, *a):
        ACTIVE["explorer"] = self.e


class _NBx:
    def branch(self, f):
        d = ctx().decide(f)
        if d is None:
            raise Unsupported("case distinction inside an array expression: %r" % (f,))
        return d


_NB = _NBx()


# ---- selectors (views) ---------------------------------------------------------
class TSel:
    def read(self, p):
        return p.mat().T

    def write(self, p, m):
        write_all(p, m.T)

    def entry(self, p, i):
        return None


class RowSel:
    """p[i] for rank >= 2 p"""

    def __init__(self, i):
        self.i = i

    def read(self, p):
        return p.entry(self.i)

    def write(self, p, m):
        write_entry(p, self.i, m)

    def entry(self, p, j):
        return None


class RegionSel:
    """p[rows, cols] for rank 1/2; r and c are (start, length, collapsed)"""

    def __init__(self, r, c=None):
        self.r, self.c = r, c

    def read(self, p):
        m = p.mat()
        N = p.dims()[0]
        jr = J(N, self.r[0], self.r[1])
        m = jr.T @ m
        if self.c is not None:
            M = p.dims()[1]
            m = m @ J(M, self.c[0], self.c[1])
        if self.c is not None and self.r[2] and not self.c[2]:
            m = m.T                 # p[i, a:b] is a vector
        return m

    def write(self, p, v):
        if self.c is not None and self.r[2] and not self.c[2]:
            v = v.T
        m = p.mat()
        N = p.dims()[0]
        jr = J(N, self.r[0], self.r[1])
        if self.c is None:
            new = m + jr @ (v - jr.T @ m)
        else:
            jc = J(p.dims()[1], self.c[0], self.c[1])
            new = m + jr @ (v - jr.T @ m @ jc) @ jc.T
        write_all(p, new)

    def entry(self, p, i):
        if self.r[2]:
            return None
        if self.c is None:
            return p.entry(i + self.r[0]) if p.ndim <= 2 else None
        return None


class Slice3Sel:
    """p[a:b] of a rank 3 array"""

    def __init__(self, lo):
        self.lo = lo

    def read(self, p):
        raise Unsupported("rank 3 slice as a matrix")

    def entry(self, p, i):
        return p.entry(i + self.lo)

    def write(self, p, m):
        raise Unsupported("write to a rank 3 slice")


class NewAxisSel:
    """p[np.newaxis, ...] adds a leading axis of length one"""

    def __init__(self, where):
        self.where = where

    def read(self, p):
        if p.ndim == 0:
            return p.mat()
        if p.ndim == 1:
            return p.mat().T if self.where == 0 else p.mat()
        raise Unsupported("rank 3 array as a matrix")

    def entry(self, p, i):
        if self.where == 0:
            return p.mat()
        return None

    def write(self, p, m):
        if p.ndim == 1:
            write_all(p, m.T if self.where == 0 else m)
        else:
            raise Unsupported("write through newaxis")


class ReshapeSel:
    def __init__(self, f, b):
        self.f, self.b = f, b

    def read(self, p):
        return self.f(p.mat())

    def write(self, p, m):
        write_all(p, self.b(m))

    def entry(self, p, i):
        return None


def write_all(a, m):
    if a.st is not None:
        st = a.st
        st.touch()
        if st.rank > 2:
            raise Unsupported("whole write of rank 3")
        st.base = ("mat", m.T if a.tr else m)
        st.log = []
        st.axis = 0
        st.whole = True
        return
    a.root()
    a.sel.write(a.parent, m)


def write_entry(a, i, val):
    """a[i] = val for a first-axis position"""
    if a.st is not None:
        st = a.st
        axis = 1 if a.tr else 0
        if st.rank <= 2 and not st.carry and st.base[0] == "mat" and not st.log and not ST.loops \
                and not a.tr and not st.dtype == "o":
            e = E(st.shape[0], i)
            st.touch()
            if st.rank == 1:
                st.base = ("mat", st.base[1] + e @ (val - e.T @ st.base[1]))
            else:
                st.base = ("mat", st.base[1] + e @ (val - st.base[1].T @ e).T)
            st.whole = True
            return
        if st.log and st.axis != axis:
            m = storage_mat(st)
            st.touch()
            st.base, st.log, st.axis, st.whole = ("mat", m), [], axis, True
        else:
            st.touch()
        st.axis = axis
        # drop an older write to the same place
        st.log = [w for w in st.log if not (isinstance(w, Write) and w.idx == i)] + [Write(i, val)]
        return
    p, s = a.parent, a.sel
    if isinstance(s, RegionSel) and s.c is None and not s.r[2]:
        return write_entry(p, i + s.r[0], val)
    N = a.dims()[0]
    e = E(N, i)
    m = a.mat()
    if a.ndim == 1:
        new = m + e @ (val - e.T @ m)
    else:
        new = m + e @ (val - m.T @ e).T
    write_all(a, new)


# ---- indexing -------------------------------------------------------------------
def norm_index(i, N):
    """index with python's wrap-around, bounds checked"""
    if isinstance(i, SReal) or isinstance(i, float):
        raise Failed("bounds", "index is not an integer")
    i = Lin.of(i)
    if i.is_const() and i.c < 0:
        i = N + i
    elif not i.is_const():
        d = decide(f_ge(i, ZERO))
        if d is None:
            d = branch(f_ge(i, ZERO))
        if not d:
            i = N + i
    if not branch(f_and(f_ge(i, ZERO), f_lt(i, N))):
        raise IndexError("index %s is out of bounds for axis of size %s" % (i, N))
    return i


def slice_bounds(s, N):
    if s.step is not None and s.step != 1:
        raise Unsupported("slice with a step")

    def clip(x, default):
        if x is None:
            return default
        x = Lin.of(x)
        if x.is_const() and x.c < 0:
            x = N + x
        elif decide(f_ge(x, ZERO)) is not True and not branch(f_ge(x, ZERO)):
            x = N + x
        if not branch(f_ge(x, ZERO)):
            return ZERO
        if not branch(f_ge(N, x)):
            return N
        return x
    lo, hi = clip(s.start, ZERO), clip(s.stop, N)
    if not branch(f_ge(hi, lo)):
        hi = lo
    return lo, hi


def _is_full(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(a, Flex):
        a = a.resolve()
    # newaxis
    if any(k is None for k in key):
        if key == (None,) or (key[0] is None and all(_is_full(k) or k is Ellipsis for k in key[1:])):
            sh = (ONE,) + a.dims()
            return Arr(parent=a, sel=NewAxisSel(0), sh=sh, mask=a.mk)
        if len(key) == 2 and key[1] is None and _is_full(key[0]) and a.ndim == 1:
            return Arr(parent=a, sel=NewAxisSel(1), sh=a.dims() + (ONE,))
        raise Unsupported("newaxis pattern")
    if Ellipsis in [k for k in key if not isinstance(k, (SInt, SReal, Arr))]:
        if key[-1] is Ellipsis:
            key = key[:-1]
        else:
            raise Unsupported("ellipsis index")
    if len(key) > a.ndim:
        raise IndexError("too many indices")
    while key and _is_full(key[-1]) and len(key) > 1:
        key = key[:-1]
    for k in key:
        if not (is_intlike(k) or isinstance(k, slice)):
            raise Unsupported("index of type %s" % type(k).__name__)
    N = a.dims()[0]
    if len(key) == 1:
        k = key[0]
        if is_intlike(k):
            i = norm_index(k, N)
            if a.root().dtype == "o":
                return a.entry(i)
            if a.ndim == 1:
                m = a.mk.row(i) if a.mk is not None else None
                return SReal(a.entry(i).as_scalar(), m)
            mk = a.mk.row(i) if a.mk is not None else None
            return Arr(parent=a, sel=RowSel(i), sh=a.dims()[1:], mask=mk)
        lo, hi = slice_bounds(k, N)
        if lo == ZERO and hi == N:
            return Arr(a.st, a.tr, a.parent, a.sel, a.mk, a._sh)
        if a.ndim == 3:
            return Arr(parent=a, sel=Slice3Sel(lo), sh=(hi - lo,) + a.dims()[1:])
        if a.mk is not None and a.mk.idx is None and a.mk.const is None:
            raise Unsupported("slice of a masked sequence")
        return Arr(parent=a, sel=RegionSel((lo, hi - lo, False)), sh=(hi - lo,) + a.dims()[1:], mask=a.mk)
    if a.ndim == 3:
        if is_intlike(key[0]):
            return getitem(getitem(a, key[0]), key[1:])
        raise Unsupported("rank 3 index pattern")
    # rank 2, two keys
    r = _axis_sel(key[0], N)
    c = _axis_sel(key[1], a.dims()[1])
    if r[2] and c[2]:
        x = a.entry(r[0])
        s = (E(a.dims()[1], c[0]).T @ x).as_scalar()
        return SReal(s, MaskElem(a.mk.row(r[0])) if a.mk is not None and a.mk.const is None else None)
    if r[2]:
        row = getitem(a, mk_int(r[0]))
        return getitem(row, slice(mk_int(c[0]), mk_int(c[0] + c[1]))) if not _is_full(key[1]) else row
    sh = []
    if not r[2]:
        sh.append(r[1])
    if not c[2]:
        sh.append(c[1])
    return Arr(parent=a, sel=RegionSel(r, c), sh=tuple(sh))


def _axis_sel(k, N):
    if is_intlike(k):
        return (norm_index(k, N), ONE, True)
    lo, hi = slice_bounds(k, N)
    return (lo, hi - lo, False)


def store_value(a, sh, val, what="store"):
    """value broadcast to shape sh, as a Mat"""
    st = a.root()
    if isinstance(val, MaskVal) or isinstance(val, (bool, SBool)):
        raise Unsupported("storing booleans")
    if st.dtype == "user":
        raise Failed("dtype", "a computed value is stored into an array of the caller's dtype (truncation)")
    if _scalarish(val):
        s = to_sc(val)
        if isinstance(val, SReal) and val.mk is not None and decide(val.mk.any_formula()) is not False:
            raise Unsupported("storing a masked scalar")
        if len(sh) == 0:
            return Mat.scalar(s)
        if len(sh) == 1:
            return ones(sh[0]).scale(s)
        return (ones(sh[0]) @ ones(sh[1]).T).scale(s)
    val = as_arr(val)
    m = data_mat(val)
    return broadcast_to(m, val.dims(), sh)


def broadcast_to(m, src, dst):
    if len(src) > len(dst):
        extra = src[:len(src) - len(dst)]
        if all(x == ONE for x in extra) and len(src) == 2 and len(dst) == 1:
            return broadcast_to(m.T, src[1:], dst)
        if len(src) == 1 and len(dst) == 0 and src[0] == ONE:
            return m
        if len(src) == 2 and len(dst) == 0 and src == (ONE, ONE):
            return m
        raise Failed("shape", "cannot store shape %s into %s" % (src, dst))
    if len(dst) == 0:
        return m
    if len(dst) == 1:
        if len(src) == 0:
            return ones(dst[0]).scale(m.as_scalar())
        if same_dim(src[0], dst[0]):
            return m
        if src[0] == ONE:
            return ones(dst[0]) @ m
    if len(dst) == 2:
        if len(src) == 0:
            return (ones(dst[0]) @ ones(dst[1]).T).scale(m.as_scalar())
        if len(src) == 1:
            if same_dim(src[0], dst[1]):
                return ones(dst[0]) @ m.T
            if src[0] == ONE:
                return (ones(dst[0]) @ m) @ ones(dst[1]).T
        else:
            r0, r1 = src
            if not same_dim(r0, dst[0]):
                if r0 == ONE:
                    m = ones(dst[0]) @ m
                else:
                    raise Failed("shape", "cannot broadcast %s to %s" % (src, dst))
            if not same_dim(r1, dst[1]):
                if r1 == ONE:
                    m = m @ ones(dst[1]).T
                else:
                    raise Failed("shape", "cannot broadcast %s to %s" % (src, dst))
            return m
    raise Failed("shape", "cannot broadcast %s to %s" % (src, dst))


def setitem(a, key, val):
    if isinstance(a, Flex):
        a = a.resolve()
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is None for k in key):
        raise Unsupported("newaxis in assignment")
    if key and key[-1] is Ellipsis:
        key = key[:-1] or (slice(None),)
    if len(key) > a.ndim:
        raise IndexError("too many indices")
    for k in key:
        if not (is_intlike(k) or isinstance(k, slice)):
            raise Unsupported("index of type %s" % type(k).__name__)
    if a.mk is not None and a.root().owner is None and a.mk.const is None:
        raise Unsupported("assignment into a masked array")
    while len(key) > 1 and _is_full(key[-1]):
        key = key[:-1]
    N = a.dims()[0]
    if len(key) == 1:
        k = key[0]
        if is_intlike(k):
            i = norm_index(k, N)
            if a.root().dtype == "o":
                write_entry(a, i, val)
                return
            sh = a.dims()[1:]
            if len(sh) == 0:
                v = store_value(a, sh, val)
            else:
                v = store_value(a, sh, val)
            write_entry(a, i, v)
            return
        lo, hi = slice_bounds(k, N)
        if a.ndim == 3:
            raise Unsupported("slice assignment on rank 3")
        sh = (hi - lo,) + a.dims()[1:]
        v = store_value(a, sh, val)
        if lo == ZERO and hi == N:
            write_all(a, v)
        else:
            RegionSel((lo, hi - lo, False)).write(a, v)
        return
    if a.ndim == 3:
        if is_intlike(key[0]):
            sub = getitem(a, key[0])
            setitem(sub, key[1:], val)
            return
        raise Unsupported("rank 3 assignment pattern")
    r = _axis_sel(key[0], N)
    c = _axis_sel(key[1], a.dims()[1])
    sh = tuple(x[1] for x in (r, c) if not x[2])
    v = store_value(a, sh, val)
    if _is_full(key[0]) and c[2] and a.st is not None and not a.tr and ST.loops and \
            (not a.st.log or a.st.axis == 1):
        write_entry(Arr(a.st, True), c[0], v)
        return
    if r[2] and c[2]:
        RegionSel((r[0], ONE, False), (c[0], ONE, False)).write(a, v)
    elif r[2]:
        RegionSel((r[0], ONE, False), (c[0], c[1], False)).write(a, v.T)
    else:
        RegionSel((r[0], r[1], False), (c[0], c[1], False)).write(a, v)


def inplace(a, res):
    st = a.root()
    if st.owner is not None:
        frame_violation("frame", "%s is modified in place" % st.owner)
    if st.dtype == "user":
        raise Failed("dtype", "in-place update of an array with the caller's dtype")
    if not isinstance(res, Arr) or len(res.dims()) != len(a.dims()) or \
            not all(same_dim(x, y) for x, y in zip(res.dims(), a.dims())):
        raise Failed("shape", "in-place update changes the shape")
    if a.ndim > 2:
        raise Unsupported("in-place update of rank 3")
    write_all(a, res.mat())
    return a


# ---- masked data ------------------------------------------------------------------
def data_mat(a):
    """data of a possibly masked array used in arithmetic: opaque unless provably unmasked"""
    if isinstance(a, Arr) and a.mk is not None:
        if decide(a.mk.any_formula()) is not False:
            sh = a.dims()
            n = alg.node("base", ("maskedvalue", fresh("mv")), sh[0] if sh else ONE, sh[1] if len(sh) > 1 else ONE)
            return Mat.atom(n)
    return a.mat()


def join_mask(*xs):
    ms = [x.mk for x in xs if isinstance(x, (Arr,)) and x.mk is not None]
    if not ms:
        return None
    return ms[0]


# ---- arithmetic ---------------------------------------------------------------------
def _pair(a, b):
    """broadcast two operands; returns (matA, matB, dims)"""
    A = a if isinstance(a, Arr) else None
    B = b if isinstance(b, Arr) else None
    da = A.dims() if A is not None else ()
    db = B.dims() if B is not None else ()
    if len(da) > 2 or len(db) > 2:
        raise Unsupported("rank 3 arithmetic")
    n = max(len(da), len(db))
    pa, pb = (ONE,) * (n - len(da)) + tuple(da), (ONE,) * (n - len(db)) + tuple(db)
    out = []
    for x, y in zip(pa, pb):
        if same_dim(x, y):
            out.append(x)
        elif x == ONE:
            out.append(y)
        elif y == ONE:
            out.append(x)
        else:
            raise Failed("shape", "operands of shapes %s and %s" % (da, db))
    out = tuple(out)
    ma = broadcast_to(data_mat(A) if A is not None else Mat.scalar(to_sc(a)), da, out)
    mb = broadcast_to(data_mat(B) if B is not None else Mat.scalar(to_sc(b)), db, out)
    return ma, mb, out


def _dt(*xs):
    ks = [x.root().dtype if isinstance(x, Arr) else ("user" if isinstance(x, (int, SInt)) else "f") for x in xs]
    if "o" in ks:
        raise Unsupported("object array arithmetic")
    return "f" if "f" in ks else "user"


def coerce(o):
    if isinstance(o, Flex):
        return o.resolve()
    if isinstance(o, (list, tuple)):
        return as_arr(o)
    return o


def ew_lin(a, b, ka, kb):
    b = coerce(b)
    if not (isinstance(b, Arr) or _scalarish(b)):
        return NotImplemented
    ma, mb, out = _pair(a, b)
    m = ma.scale(ka) + mb.scale(kb)
    return new_arr(m, out, _dt(a, b), mask=join_mask(a, b))


def ew_mul(a, b):
    b = coerce(b)
    if _scalarish(b):
        return new_arr(data_mat(a).scale(to_sc(b)), a.dims(), _dt(a, b), mask=a.mk)
    if not isinstance(b, Arr):
        return NotImplemented
    m, out = hadamard(a, b)
    return new_arr(m, out, _dt(a, b), mask=join_mask(a, b))


def hadamard(a, b):
    da, db = a.dims(), b.dims()
    ma, mb = data_mat(a), data_mat(b)
    if len(da) == 0:
        return mb.scale(ma.as_scalar()), db
    if len(db) == 0:
        return ma.scale(mb.as_scalar()), da
    if len(da) == 1 and len(db) == 1:
        if same_dim(da[0], db[0]):
            return diag(ma) @ mb, da
        if da[0] == ONE:
            return mb.scale(ma.as_scalar()), db
        if db[0] == ONE:
            return ma.scale(mb.as_scalar()), da
        raise Failed("shape", "operands of shapes %s and %s" % (da, db))
    if len(db) < len(da) or (len(da) == len(db) == 2 and db[0] != ONE and db[1] != ONE and
                             (da[0] == ONE or da[1] == ONE)):
        if not (len(da) == 2 and (da[0] == ONE or da[1] == ONE)):
            a, b, da, db, ma, mb = b, a, db, da, mb, ma
    # now a is the lower-rank / degenerate operand, b is N x M
    if len(da) == 1:
        N, M = db
        if same_dim(da[0], M):
            return mb @ diag(ma), db
        if M == ONE:
            return mb @ ma.T, (N, da[0])
        raise Failed("shape", "operands of shapes %s and %s" % (da, db))
    if len(da) == 2 and len(db) == 1:
        return hadamard(b, a)
    (r1, c1), (r2, c2) = da, db
    if r1 == ONE and same_dim(c1, c2):
        return mb @ diag(ma.T), db
    if c1 == ONE and same_dim(r1, r2):
        return diag(ma) @ mb, db
    if r2 == ONE and same_dim(c1, c2):
        return ma @ diag(mb.T), da
    if c2 == ONE and same_dim(r1, r2):
        return diag(mb) @ ma, da
    if c1 == ONE and r2 == ONE:
        return ma @ mb, (r1, c2)
    if r1 == ONE and c2 == ONE:
        return (mb @ ma), (r2, c1)
    raise Unsupported("elementwise product of matrices")


def ew_div(a, b):
    b = coerce(b)
    if _scalarish(b):
        s = to_sc(b)
        return new_arr(data_mat(a).scale(alg.S1 / s), a.dims(), "f", mask=a.mk)
    if isinstance(b, Arr) and len(b.dims()) == 0:
        return ew_div(a, SReal(b.mat().as_scalar()))
    if isinstance(b, Arr):
        s = _constvec(b)
        if s is not None:
            return ew_mul(a, 1 / SReal(s)) if len(b.dims()) <= len(a.dims()) else None
        if len(b.dims()) == 1:
            r = new_arr(ewise("recip", b.mat()), b.dims())
            return ew_mul(a, r)
    raise Unsupported("elementwise division")


def _constvec(b):
    s = b.mat().single() if len(b.dims()) == 1 else None
    if s and len(s[1]) == 1 and s[1][0][0].kind == "ones":
        return s[0]
    if len(b.dims()) == 1 and b.dims()[0] == ONE:
        return b.mat().as_scalar()
    return None


def ew_rdiv(a, b):
    if _scalarish(a):
        if len(b.dims()) == 1:
            s = _constvec(b)
            if s is not None:
                return new_arr(ones(b.dims()[0]).scale(to_sc(a) / s), b.dims())
            return new_arr(ewise("recip", b.mat()).scale(to_sc(a)), b.dims())
    raise Unsupported("elementwise division")


def np_dot(a, b):
    a, b = coerce(a), coerce(b)
    if _scalarish(a) or _scalarish(b):
        return a * b
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        raise Unsupported("dot of %s and %s" % (type(a).__name__, type(b).__name__))
    da, db = a.dims(), b.dims()
    if len(da) == 0 or len(db) == 0:
        return a * b
    if len(da) > 2 or len(db) > 2:
        raise Unsupported("rank 3 dot")
    if not same_dim(da[-1], db[0] if len(db) == 1 else db[-2]):
        raise Failed("shape", "dot of shapes %s and %s" % (da, db))
    mask = None
    # numpy: the product with a masked operand uses the data and keeps the mask of a
    # same-shaped operand; for whole sequences the data are used row-wise
    ma = a.mat() if _whole_mask(a) else data_mat(a)
    mb = b.mat() if _whole_mask(b) else data_mat(b)
    if len(da) == 2 and len(db) == 2:
        m, out = ma @ mb, (da[0], db[1])
    elif len(da) == 2:
        m, out = ma @ mb, (da[0],)
    elif len(db) == 2:
        m, out = (ma.T @ mb).T, (db[1],)
    else:
        return SReal((ma.T @ mb).as_scalar())
    for x in (b, a):
        if x.mk is not None:
            xs = x.dims()
            if len(xs) == len(out) and all(same_dim(p, q) for p, q in zip(xs, out)):
                mask = x.mk
            elif decide(x.mk.any_formula()) is not False:
                raise Unsupported("mask of a product")
    return new_arr(m, out, _dt(a, b), mask=mask)


def _whole_mask(a):
    return a.mk is not None and a.mk.idx is None and a.mk.const is None


def np_sum(a, axis=None):
    a = coerce(a)
    if isinstance(a, (SReal, SInt, int, float)):
        return a
    if isinstance(a, (list, tuple)):
        a = as_arr(a)
    d = a.dims()
    if axis is None:
        if len(d) == 1:
            st = a.st
            if st is not None and st.log:
                return SReal(sum_log(st))
            return SReal(sum_vec(data_mat(a), d[0]))
        if len(d) == 2:
            return SReal((ones(d[0]).T @ data_mat(a) @ ones(d[1])).as_scalar())
        if len(d) == 0:
            return SReal(a.mat().as_scalar())
        raise Unsupported("sum of rank 3")
    if len(d) == 2:
        if axis in (1, -1):
            return new_arr(data_mat(a) @ ones(d[1]), (d[0],))
        if axis in (0, -2):
            return new_arr(data_mat(a).T @ ones(d[0]), (d[1],))
    if len(d) == 1 and axis in (0, -1):
        return np_sum(a)
    raise Unsupported("sum over axis %r" % (axis,))


def sum_vec(m, n):
    if m.t and all(len(w) == 1 and w[0][0].kind == "ew" and w[0][0].args[0] == "log" for w in m.t):
        tot, rest = alg.S0, m
        for w, k in list(m.t.items()):
            d = w[0][0].args[1].single()
            # sum(log(diag(U))) = logdet(U'U)/2 for a triangular factor with positive diagonal
            if d and d[0] == alg.S1 and len(d[1]) == 1 and d[1][0][0].kind == "diagof":
                x = d[1][0][0].args[0].single()
                if x and x[0] == alg.S1 and len(x[1]) == 1 and x[1][0][0].kind == "tri" and \
                        x[1][0][0].args[0] == "chol":
                    tot = tot + k * sc_fn("logdet", x[1][0][0].args[1]) * Sc.of(Fr(1, 2))
                    rest = rest - Mat(m.r, m.c, {w: k})
        if not rest.t:
            return tot
        return tot + sum_vec2(rest, n)
    return sum_vec2(m, n)


def sum_vec2(m, n):
    return (ones(n).T @ m).as_scalar() if n != ONE else m.as_scalar()


def sum_log(st):
    """sum of a rank 1 array given by (guarded) loop writes over a constant base"""
    total = alg.S0
    kind, b = st.base
    if kind != "mat":
        raise Unsupported("sum of a symbolic family")
    covered = []
    if len(st.log) > 1:
        # the writes must not overlap
        for i, w in enumerate(st.log):
            for x in st.log[i + 1:]:
                if not _disjoint(w, x):
                    raise Unsupported("overlapping writes in a sum")
    if not b.is_zero():
        for w in st.log:
            if isinstance(w, LoopWrite) and not w.total:
                raise Unsupported("partial writes over a non-zero base in a sum")
        total = total + sum_vec(b, st.shape[0])
    for w in st.log:
        if isinstance(w, Write):
            total = total + w.val.as_scalar()
            if not b.is_zero():
                total = total - (E(st.shape[0], w.idx).T @ b).as_scalar()
            continue
        v = fresh("s")
        s = {w.var: Lin.of(v) + w.lo}
        for g, val in w.cases:
            with range_facts(v, w.hi - w.lo):
                gg, vv = subst(g, s), val_subst(val, s).as_scalar()
            total = total + guarded_sum(w.hi - w.lo, vv, v, gg)
        if not b.is_zero():
            lo = w.idx.subst({w.var: w.lo})
            total = total - (ones(w.hi - w.lo).T @ J(st.shape[0], lo, w.hi - w.lo).T @ b).as_scalar()
    return total


class range_facts:
    def __init__(self, v, n):
        self.v, self.n = v, n

    def __enter__(self):
        C = ctx()
        self.k = C.snapshot()
        C.assume(f_ge(Lin.of(self.v), ZERO))
        C.assume(f_lt(Lin.of(self.v), self.n))
        return self

    def __exit__(self, *a):
        ctx().restore(self.k)


def point_guard(g, v):
    """(value, rest) when g contains  v == value"""
    fs = g[1:] if (g is not True and g is not False and g[0] == "and") else (g,)
    for f in fs:
        if f is not True and f is not False and f[0] == "eq":
            k = dict(f[1].t).get(v)
            if k in (1, -1):
                rest = f[1] - Lin(0, ((v, k),))
                return (-rest if k == 1 else rest), f_and(*[x for x in fs if x is not f])
    return None


def guarded_sum(n, body, v, g):
    """sum over v in [0,n) of body under guard g; point and punctured ranges are normalised"""
    from .alg import sc_sum, Sc
    if g is False:
        return alg.S0
    p = point_guard(g, v)
    if p is not None:
        x, rest = p
        if decide(f_and(f_ge(x, ZERO), f_lt(x, n))) is not True:
            raise Unsupported("point summand outside of the range")
        m = {v: x}
        if rest is not True:
            raise Unsupported("guarded point summand")
        return subst(body, m)
    return sc_sum(n, body, v, (g,))


def _disjoint(w, x):
    def rng(u):
        if isinstance(u, Write):
            return u.idx, u.idx + 1
        a = u.idx.subst({u.var: u.lo})
        b = u.idx.subst({u.var: u.hi - 1})
        k = dict(u.idx.t)[u.var]
        return (a, b + 1) if k == 1 else (b, a + 1)
    a, b = rng(w)
    c, d = rng(x)
    return decide(f_ge(a, d)) is True or decide(f_ge(c, b)) is True


def np_diagonal(a):
    m = data_mat(coerce(a))
    n = m.r
    s = m.single()
    out = Mat.zero(n, ONE)
    for w, k in m.t.items():
        if w == () and n != ONE:
            out = out + ones(n).scale(k)
        elif w == ():
            out = out + Mat.scalar(k)
        elif len(w) == 1 and w[0][0].kind == "diag":
            out = out + Mat(n, ONE, {w[0][0].args[0]: k})
        elif len(w) == 1 and w[0][0].kind == "tri":
            out = out + Mat.atom(alg.node("diagof", (Mat.atom(w[0][0]),), n, ONE)).scale(k)
        else:
            out = out + Mat.atom(alg.node("diagof", (Mat(n, n, {w: alg.S1}),), n, ONE)).scale(k)
    return new_arr(out, (n,))


def np_stack_rows(items):
    ds = [i.dims() for i in items]
    n = ds[0][0]
    N = Lin(len(items))
    m = Mat.zero(N, n)
    for k, it in enumerate(items):
        if not same_dim(it.dims()[0], n):
            raise Failed("shape", "stacking rows of different length")
        m = m + E(N, k) @ data_mat(it).T
    return new_arr(m, (N, n))


def reshape(a, shape):
    d = a.dims()
    shape = tuple(shape)
    if len(shape) == 1:
        if len(d) == 1:
            return Arr(a.st, a.tr, a.parent, a.sel, a.mk, a._sh)
        if len(d) == 2 and d[0] == ONE:
            return Arr(parent=a, sel=ReshapeSel(lambda m: m.T, lambda m: m.T), sh=(d[1],), mask=a.mk)
        if len(d) == 2 and d[1] == ONE:
            return Arr(parent=a, sel=ReshapeSel(lambda m: m, lambda m: m), sh=(d[0],), mask=a.mk)
    if len(shape) == 2 and len(d) == 1:
        if shape[0] in (1,) and not isinstance(shape[0], SInt):
            return getitem(a, (None, slice(None)))
        if shape[1] in (1,) and not isinstance(shape[1], SInt):
            return getitem(a, (slice(None), None))
    if len(shape) == len(d) and all(is_intlike(s) and same_dim(Lin.of(s), x) for s, x in zip(shape, d)):
        return Arr(a.st, a.tr, a.parent, a.sel, a.mk, a._sh)
    raise Unsupported("reshape %s to %s" % (d, shape))


# ------------------------------------------------------------------- flexible parameters
class LenChoice:
    """number of dimensions of a parameter that is either constant or given per time step"""

    def __init__(self, fl):
        self.fl = fl

    def force(self):
        return self.fl.sub_rank + (1 if branch(self.fl.flag) else 0)

    __int__ = __index__ = force

    def _cmp(self, o, op):
        if not isinstance(o, int):
            o = int(o)
        a, b = op(self.fl.sub_rank + 1, o), op(self.fl.sub_rank, o)
        if a == b:
            return a
        f = self.fl.flag
        return mk_bool(f if a else f_not(f))

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __hash__(self):
        return hash(self.force())

    def __add__(self, o):
        return self.force() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.force() - o

    def __rsub__(self, o):
        return o - self.force()

    def __mul__(self, o):
        return self.force() * o

    __rmul__ = __mul__

    def __str__(self):
        return str(self.force())


class FlexShape:
    """shape of a parameter that is either constant or given per time step"""

    def __init__(self, fl):
        self.fl = fl

    def sym_len(self):
        d = decide(self.fl.flag)
        if d is None:
            return LenChoice(self.fl)
        return self.fl.sub_rank + (1 if d else 0)

    def __len__(self):
        return int(self.sym_len())

    def __getitem__(self, i):
        if isinstance(i, int) and i < 0 and -i <= self.fl.sub_rank:
            return mk_int(self.fl.sub[i])
        return self.fl.resolve().shape[i]

    def __iter__(self):
        return iter(self.fl.resolve().shape)

    def __eq__(self, o):
        return tuple(self) == o


class Flex:
    """array parameter that may be constant or indexed by time (flag ('tv', name))"""
    __array_priority__ = 100

    def __init__(self, name, sub, length, at, owner, sym=False):
        self.name, self.sub, self.length, self.at_fn = name, tuple(Lin.of(s) for s in sub), Lin.of(length), at
        self.sub_rank = len(self.sub)
        self.flag = ("tv", name)
        self.owner = owner
        self._c = self._v = None

    def const(self):
        if self._c is None:
            self._c = param_arr(self.at_fn(None), self.sub, self.owner)
        return self._c

    def varying(self):
        if self._v is None:
            self._v = new_fam((self.length,) + self.sub, lambda i: self.at_fn(i), "user", self.owner, self.owner)
        return self._v

    def resolve(self):
        return self.varying() if branch(self.flag) else self.const()

    def at(self, t):
        """value at time t without deciding the flag"""
        d = decide(self.flag)
        if d is True:
            return self.at_fn(t)
        if d is False:
            return self.at_fn(None)
        return self.at_fn(("flex", t))

    @property
    def shape(self):
        return FlexShape(self)

    @property
    def ndim(self):
        return self.shape.sym_len()

    def root(self):
        return self.resolve().root()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.resolve(), k)

    def __getitem__(self, k):
        return self.resolve()[k]

    def __setitem__(self, k, v):
        self.resolve()[k] = v

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        raise Unsupported("elementwise comparison")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        raise Unsupported("elementwise comparison")

    __hash__ = object.__hash__

    def __add__(self, o):
        return self.resolve() + o

    def __radd__(self, o):
        return o + self.resolve()

    def __sub__(self, o):
        return self.resolve() - o

    def __rsub__(self, o):
        return o - self.resolve()

    def __mul__(self, o):
        return self.resolve() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.resolve() / o

    def __neg__(self):
        return -self.resolve()

    def __matmul__(self, o):
        return self.resolve() @ o

    def __rmatmul__(self, o):
        return np_dot(o, self.resolve())

    def __iadd__(self, o):
        r = self.resolve()
        r += o
        return r

    __isub__ = __imul__ = __itruediv__ = __iadd__


# ------------------------------------------------------------------- user functions
class UFun:
    """user supplied transition / observation function: an arbitrary function of vectors;
    `fn` maps the argument Mats to the result Mat"""

    def __init__(self, name, fn, out):
        self.name, self.fn, self.out = name, fn, Lin.of(out)

    def __call__(self, *args):
        ms = []
        for a in args:
            a = coerce(a)
            if not isinstance(a, Arr) or a.ndim != 1:
                raise Failed("shape", "%s is applied to something that is not a vector" % self.name)
            ms.append(data_mat(a))
        return new_arr(self.fn(*ms), (self.out,), "user")


class UFunSeq:
    """array1d of user functions given per time step (symbolic length)"""
    ndim = 1

    def __init__(self, n, at):
        self.n, self.at_fn = Lin.of(n), at

    @property
    def shape(self):
        return (mk_int(self.n),)

    def sym_len(self):
        return mk_int(self.n)

    def __getitem__(self, i):
        if is_intlike(i):
            return self.at_fn(norm_index(i, self.n))
        raise Unsupported("function sequence index")

    def as_array(self):
        return self
