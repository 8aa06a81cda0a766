"""Case generation for the concrete oracles (deterministic from seed and index)."""
import zlib

import numpy as np

PARAM = dict(A="transition_matrices", b="transition_offsets", Q="transition_covariance",
             C="observation_matrices", d="observation_offsets", R="observation_covariance",
             m0="initial_state_mean", P0="initial_state_covariance")
NDIM = dict(A=2, b=1, Q=2, C=2, d=1, R=2, m0=1, P0=2)


def rng_for(pid, idx, seed):
    return np.random.default_rng([int(seed), zlib.crc32(pid.encode()), int(idx)])


def spd(r, n, scale=1.0, lo=0.3):
    G = r.normal(size=(n, n))
    return scale * (G @ G.T / max(n, 1) + lo * np.eye(n))


def ispd(r, n):
    """integer valued, positive definite, non diagonal"""
    G = r.integers(-2, 3, size=(n, n))
    return (G @ G.T + 2 * np.eye(n, dtype=int)).astype(int)


TV_PATTERNS = ["", "A", "b", "C", "d", "Q", "R", "Abd", "AbCd", "AbCdQR", "QR", "CR", "bd"]


def model(r, T=None, n=None, p=None, tv=None, scale=None, integer=False, tvok="AbCdQR",
          stable=False):
    T = int(r.choice([1, 2, 3, 5, 6])) if T is None else T
    n = int(r.choice([1, 2, 3, 4, 5])) if n is None else n
    p = int(r.choice([1, 2, 3, 4])) if p is None else p
    if tv is None:
        tv = TV_PATTERNS[int(r.integers(len(TV_PATTERNS)))]
        if r.random() < 0.3:
            tv = "".join(c for c in "AbCdQR" if r.random() < 0.5)
    tv = "".join(c for c in tv if c in tvok)
    s = float(r.choice([1.0, 1.0, 1.0, 100.0, 0.01])) if scale is None else scale
    if stable:
        s = 1.0
    if integer:
        mk = lambda k, c: ispd(r, k)
        vec = lambda k: r.integers(-3, 4, size=k)
        mat = lambda a, c: r.integers(-2, 3, size=(a, c))
    else:
        mk = lambda k, c: spd(r, k, c)
        vec = lambda k: np.sqrt(s) * r.normal(size=k)
        mat = lambda a, c: (r.normal(size=(a, c)) * (0.5 if stable else 0.8))
    gens = dict(A=lambda: mat(n, n), b=lambda: vec(n), Q=lambda: mk(n, s),
                C=lambda: mat(p, n), d=lambda: vec(p), R=lambda: mk(p, s * float(r.choice([.3, 1, 3]))))
    m = dict(n=n, p=p, T=T, tv=tv, scale=s, m0=vec(n), P0=mk(n, s))
    for k, g in gens.items():
        if k in tv:
            L = T - 1 if k in "AbQ" else T
            one = g()
            m[k] = np.array([g() for _ in range(L)], dtype=one.dtype).reshape((L,) + one.shape)
        else:
            m[k] = g()
    return m


MASKS = ["plain", "nomask", "none", "random", "partial", "first", "last", "all", "alternate",
         "onecell", "middle"]


def observations(r, m, kind=None, junk=None, integer=False):
    """returns (Z to pass, z plain float values, mask or None, kind)"""
    T, p = m["T"], m["p"]
    kind = MASKS[int(r.integers(len(MASKS)))] if kind is None else kind
    z = 2 * np.sqrt(m["scale"]) * r.normal(size=(T, p))
    if integer:
        z = r.integers(-5, 6, size=(T, p))
    mk = np.zeros((T, p), dtype=bool)
    if kind == "random":
        mk = r.random((T, p)) < 0.3
    elif kind == "partial":
        for t in range(T):
            if r.random() < 0.5:
                mk[t, int(r.integers(p))] = True
    elif kind == "first":
        mk[0, int(r.integers(p))] = True
    elif kind == "last":
        mk[-1, int(r.integers(p))] = True
    elif kind == "all":
        mk[:, int(r.integers(p))] = True
    elif kind == "alternate":
        mk[::2, -1] = True
    elif kind == "onecell":
        mk[int(r.integers(T)), 0] = True
    elif kind == "middle" and T > 2:
        mk[1:-1] = True
    if kind == "plain":
        return z.copy(), z, None, kind
    if kind == "nomask":
        return np.ma.array(z.copy()), z, None, kind
    stored = z.copy()
    junk = (["keep", "nan", "big", "zero"][int(r.integers(4))] if junk is None else junk)
    if integer and junk == "nan":
        junk = "big"
    if junk == "nan":
        stored[mk] = np.nan
    elif junk == "big":
        stored[mk] = 12345
    elif junk == "zero":
        stored[mk] = 0
    return np.ma.array(stored, mask=mk), z, mk, kind


FORMS = ["array", "array", "list", "fortran", "strided", "float32ok"]


def present(r, x, form):
    """the same values in another container"""
    x = np.asarray(x)
    if form == "list":
        return x.tolist()
    if form == "fortran":
        return np.asfortranarray(x)
    if form == "strided":
        big = np.zeros(tuple(2 * k for k in x.shape), dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if form == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    return x.copy()


def params(r, m, forms=("array",), omit=()):
    out = {}
    for k, name in PARAM.items():
        if k in omit:
            continue
        out[name] = present(r, m[k], forms[int(r.integers(len(forms)))])
    return out


# ------------------------------------------------------------------ functions
def fun_additive(r, n, k, nonlinear=0.3):
    A = r.normal(size=(k, n)) * 0.6
    c = r.normal(size=k)
    B = r.normal(size=(k, n)) * 0.5
    w = nonlinear

    def f(x):
        return A.dot(x) + c + w * np.sin(B.dot(x)) + 0.1 * w * B.dot(x) ** 2
    f.affine = (A, c)
    return f


def fun_general(r, n, q, k, nonlinear=0.3, affine=False):
    """function of (state[n], noise[q]) -> k"""
    A = r.normal(size=(k, n)) * 0.6
    c = r.normal(size=k)
    B = r.normal(size=(k, n)) * 0.5
    G = r.normal(size=(k, q)) * 0.3 + np.eye(k, q)
    w = 0.0 if affine else nonlinear

    def f(x, v):
        y = A.dot(x) + c + G.dot(v)
        if w:
            y = y + w * np.sin(B.dot(x)) + 0.2 * w * np.cos(B.dot(x)) * G.dot(v)
        return y
    f.affine = (A, c, G)
    return f


def uk_model(r, general, T=None, n=None, p=None, affine=False, tv=None, nonlinear=None):
    T = int(r.choice([1, 2, 3, 4])) if T is None else T
    n = int(r.choice([1, 2, 3, 4, 5])) if n is None else n
    p = int(r.choice([1, 2, 3])) if p is None else p
    tv = [bool(r.integers(2)), bool(r.integers(2))] if tv is None else tv
    w = (0.0 if affine else (0.3 if (2 * n + p if general else n) <= 3 else 0.05)) \
        if nonlinear is None else nonlinear

    def F():
        return fun_general(r, n, n, n, w, affine) if general else fun_additive(r, n, n, w)

    def G():
        return fun_general(r, n, p, p, w, affine) if general else fun_additive(r, n, p, w)
    fl = [F() for _ in range(max(T - 1, 1))] if tv[0] else [F()]
    gl = [G() for _ in range(T)] if tv[1] else [G()]
    m = dict(n=n, p=p, T=T, f=fl, g=gl, m0=r.normal(size=n), P0=spd(r, n), Q=spd(r, n),
             R=spd(r, p), scale=1.0, general=general, tv=tv)
    m["fat"] = lambda t: fl[t] if len(fl) > 1 else fl[0]
    m["gat"] = lambda t: gl[t] if len(gl) > 1 else gl[0]
    return m


def uk_params(r, m):
    form = int(r.integers(3))

    def wrap(l):
        if len(l) == 1 and form == 0:
            return l[0]
        if form == 1:
            return np.array(l, dtype=object)
        return list(l)
    return dict(transition_functions=wrap(m["f"]), observation_functions=wrap(m["g"]),
                transition_covariance=m["Q"].copy(), observation_covariance=m["R"].copy(),
                initial_state_mean=m["m0"].copy(), initial_state_covariance=m["P0"].copy())
