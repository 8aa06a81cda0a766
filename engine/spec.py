"""Specification: the symbolic inputs of the estimators and the textbook recursions."""
from . import alg
from .alg import E, J, Mat, Sc, base, diag, inv, mat_sum, ones, sc_fn, sc_sum, sc_sym, tri
from .fams import FAMS, Family, prove_eq
from .lin import ACTIVE, Ctx, Explorer, Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_lt, f_not
from .vals import (Arr, Flex, Mask, SInt, SReal, ST, Storage, Unsupported, mk_int, new_arr, new_fam, param_arr,
                   val_subst)

N, M, T = Lin.of("n"), Lin.of("m"), Lin.of("T")

PARAMS = ["transition_matrices", "observation_matrices", "transition_covariance", "observation_covariance",
          "transition_offsets", "observation_offsets", "initial_state_mean", "initial_state_covariance"]
SHORT = dict(A="transition_matrices", C="observation_matrices", Q="transition_covariance",
             R="observation_covariance", b="transition_offsets", d="observation_offsets",
             mu0="initial_state_mean", S0="initial_state_covariance")
SHAPE = dict(A=(N, N), C=(M, N), Q=(N, N), R=(M, M), b=(N,), d=(M,), mu0=(N,), S0=(N, N))
SYM = {"Q", "R", "S0"}
LEN = dict(A=T - 1, b=T - 1, Q=T - 1, C=T, d=T, R=T)


def base_ctx():
    C = Ctx()
    C.assume(f_ge(N, ONE))
    C.assume(f_ge(M, ONE))
    C.assume(f_ge(T, ONE))
    return C


class Obs:
    """an observation sequence Z (T x m) with an arbitrary mask"""

    def __init__(self, zid="Z", length=T, width=M, masked=True, mat=None):
        self.zid, self.length, self.width, self.masked = zid, Lin.of(length), Lin.of(width), masked
        self.mat = base("obs:" + zid, self.length, self.width) if mat is None else mat

    def prefix(self, k):
        """the first k rows (values and mask)"""
        return Obs(self.zid, k, self.width, self.masked, J(self.length, ZERO, k).T @ self.mat)

    def arr(self):
        return param_arr(self.mat, (mk_int(self.length), mk_int(self.width)), "the observations", "f",
                         mask=Mask(self.zid) if self.masked else None)

    def z(self, t):
        return self.mat.T @ E(self.length, t)

    def any(self, t):
        return ("anymask", self.zid, Lin.of(t)) if self.masked else False


class Param:
    """one model parameter: constant, per time step, or undetermined between the two"""

    def __init__(self, key, mode, tag="", dims=None):
        self.key, self.mode, self.tag = key, mode, tag
        sh = SHAPE[key]
        self.len = LEN.get(key)
        if dims:
            sh = tuple(x.subst(dims) for x in sh)
            self.len = self.len.subst(dims) if self.len is not None else None
        self.sh = sh
        self.r, self.c = sh[0], sh[1] if len(sh) > 1 else ONE
        self.sym = key in SYM
        self.name = key + tag

    def mat(self, t):
        """t None: the constant; ('flex', t): undetermined"""
        if t is None:
            return base(self.name, self.r, self.c, (), self.sym)
        if isinstance(t, tuple):
            return base(("flex", self.name), self.r, self.c, (t[1],), self.sym)
        return base(("tv", self.name), self.r, self.c, (t,), self.sym)

    def value(self):
        owner = "the caller's " + SHORT[self.key]
        if self.mode == "const":
            return param_arr(self.mat(None), [mk_int(x) for x in self.sh], owner)
        fl = Flex(self.name, self.sh, self.len, self.mat, owner, self.sym)
        fl.flag = ("tv", self.name)
        return fl

    def at(self, t):
        if self.mode == "const":
            return self.mat(None)
        d = decide(("tv", self.name))
        if d is True:
            return self.mat(Lin.of(t))
        if d is False:
            return self.mat(None)
        return self.mat(("flex", Lin.of(t)))


class Const:
    """a parameter given by an arbitrary function of time"""

    def __init__(self, fn):
        self.fn = fn

    def at(self, t):
        return self.fn(Lin.of(t))


class Model:
    """linear Gaussian model with observation sequence; defines the recursion families"""

    def __init__(self, name, par, obs, n=N, m=M, T_=T, register=True):
        self.name, self.par, self.obs, self.n, self.m, self.T = name, par, obs, Lin.of(n), Lin.of(m), Lin.of(T_)
        n, m = self.n, self.m
        mk = lambda nm, r, c, fn, **k: Family(nm, name, r, c, fn, **k)
        self.pM = mk("pred_mean", n, 1, self._pM)
        self.pP = mk("pred_cov", n, n, self._pP, sym=True)
        self.K = mk("gain", n, m, self._K)
        self.fM = mk("filt_mean", n, 1, self._fM, rec=True)
        self.fP = mk("filt_cov", n, n, self._fP, rec=True, sym=True)
        self.fams = [self.fM, self.fP, self.pM, self.pP, self.K]

    def activate(self):
        FAMS.active = FAMS.active + self.fams

    def p(self, k, t=ZERO):
        return self.par[k].at(t)

    def S(self, t):
        C = self.p("C", t)
        return C @ self.pP.at(t) @ C.T + self.p("R", t)

    def _pM(self, t):
        if branch(f_eq(t, ZERO)):
            return self.p("mu0")
        return self.p("A", t - 1) @ self.fM.at(t - 1) + self.p("b", t - 1)

    def _pP(self, t):
        if branch(f_eq(t, ZERO)):
            return self.p("S0")
        A = self.p("A", t - 1)
        return A @ self.fP.at(t - 1) @ A.T + self.p("Q", t - 1)

    def masked(self, t):
        f = self.obs.any(t)
        return f if isinstance(f, bool) else branch(f)

    def _K(self, t):
        if self.masked(t):
            return Mat.zero(self.n, self.m)
        return self.pP.at(t) @ self.p("C", t).T @ inv(self.S(t))

    def gain(self, t):
        return self.pP.at(t) @ self.p("C", t).T @ inv(self.S(t))

    def innov(self, t):
        return self.obs.z(t) - (self.p("C", t) @ self.pM.at(t) + self.p("d", t))

    def _fM(self, t):
        if self.masked(t):
            return self.pM.at(t)
        return self.pM.at(t) + self.gain(t) @ self.innov(t)

    def _fP(self, t):
        if self.masked(t):
            return self.pP.at(t)
        return self.pP.at(t) - self.gain(t) @ self.p("C", t) @ self.pP.at(t)


class Smoother:
    """the backward (Rauch-Tung-Striebel) recursion over given filtered and predicted moments"""

    def __init__(self, name, A, fM, fP, pM, pP, n, T_):
        self.A, self.fM, self.fP, self.pM, self.pP, self.n, self.T = A, fM, fP, pM, pP, n, T_
        mk = lambda nm, r, c, fn, **k: Family(nm, name, r, c, fn, **k)
        self.G = mk("smoother_gain", n, n, self._G)
        self.sM = mk("smooth_mean", n, 1, self._sM, rec=True, back=True)
        self.sP = mk("smooth_cov", n, n, self._sP, rec=True, back=True, sym=True)
        self.fams = [self.sM, self.sP, self.G]

    def activate(self):
        FAMS.active = FAMS.active + self.fams

    def _G(self, t):
        return self.fP(t) @ self.A(t).T @ inv(self.pP(t + 1))

    def _sM(self, t):
        if branch(f_eq(t, self.T - 1)):
            return self.fM(t)
        return self.fM(t) + self.G.at(t) @ (self.sM.at(t + 1) - self.pM(t + 1))

    def _sP(self, t):
        if branch(f_eq(t, self.T - 1)):
            return self.fP(t)
        G = self.G.at(t)
        return self.fP(t) + G @ (self.sP.at(t + 1) - self.pP(t + 1)) @ G.T


def std_model(name="std", modes=None, obs=None, n=N, m=M, T_=T):
    modes = modes or {}
    dims = {"n": Lin.of(n), "m": Lin.of(m), "T": Lin.of(T_)} if (n, m, T_) != (N, M, T) else None
    par = {k: Param(k, modes.get(k, "flex" if k in LEN else "const"), dims=dims) for k in SHAPE}
    return Model(name, par, obs or Obs(), n, m, T_)


def kwargs_of(model):
    return {SHORT[k]: model.par[k].value() for k in SHAPE}
