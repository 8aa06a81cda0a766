"""Contracts of the standard filter's functions (pykalman/standard.py)."""
from . import alg
from .alg import E, J, Mat, Sc, base, inv, mat_sum, ones, sc_fn, sc_sum
from .contracts import CON, Mtx, NotApplicable, Real, Same, Seq, Vec, contract
from .fams import FAMS, Family, prove_eq
from .lin import ACTIVE, Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_lt
from .spec import (LEN, M, N, SHORT, SHAPE, SYM, T, Const, Model, Obs, Param, Smoother, base_ctx, std_model)
from .vals import (Poison, Arr, Flex, Mask, SInt, SReal, ST, Unsupported, data_mat, fresh, is_intlike, mk_int, new_arr, new_fam,
                   no_branching, param_arr, range_facts, same_dim)

S = "pykalman.standard."


# ------------------------------------------------------------------ helpers
def arr(x):
    return isinstance(x, (Arr, Flex))


def vec(x):
    if isinstance(x, Flex):
        raise NotApplicable
    if not isinstance(x, Arr) or x.ndim != 1:
        raise NotApplicable
    return data_mat(x)


def mtx(x):
    if not isinstance(x, Arr) or x.ndim != 2:
        raise NotApplicable
    return data_mat(x)


def need(*conds):
    for c in conds:
        if not c:
            raise NotApplicable


def at(x, t, nd):
    """X at step t, for a constant array, a per-step array or an undetermined one"""
    if isinstance(x, Flex):
        need(x.sub_rank == nd)
        return x.at(t)
    need(isinstance(x, Arr))
    if x.ndim == nd:
        return data_mat(x)
    need(x.ndim == nd + 1)
    return x.entry(t)


def at_fn(x, nd, n):
    """t -> value at step t as a pure function (no later change of x is seen)"""
    if isinstance(x, Poison):
        x._use()
    if isinstance(x, Flex):
        need(x.sub_rank == nd)
        return x.at
    need(isinstance(x, Arr))
    if x.ndim == nd:
        m = data_mat(x)
        return lambda t: m
    need(x.ndim == nd + 1)
    from .vals import freeze3, copy_arr
    y = copy_arr(x)
    return lambda t: y.entry(Lin.of(t))


def keyform(fn, n):
    """a normal form identifying the sequence fn(0..n-1)"""
    t = Lin.of("t*")
    C = ctx()
    k = C.snapshot()
    C.assume(f_ge(t, ZERO))
    if C.decide(f_lt(t, n)) is not False:
        C.assume(f_lt(t, n))
    try:
        with no_branching():
            return fn(t)
    except Unsupported:
        return fresh("seq")
    finally:
        C.restore(k)


def dims_ok(x, nd, sub, n=None):
    if isinstance(x, Flex):
        return x.sub_rank == nd and all(same_dim(a, b) for a, b in zip(x.sub, sub)) and \
            (n is None or decide(f_ge(x.length, n)) is True)
    if not isinstance(x, Arr):
        return False
    d = x.dims()
    if len(d) == nd:
        return all(same_dim(a, b) for a, b in zip(d, sub))
    if len(d) == nd + 1:
        return all(same_dim(a, b) for a, b in zip(d[1:], sub)) and (n is None or decide(f_ge(d[0], n)) is True)
    return False


class ArrObs:
    """observation sequence given by an array value"""

    def __init__(self, a):
        need(isinstance(a, Arr), a.ndim == 2)
        self.a = a
        self.length, self.width = a.dims()
        mk = a.mk
        need(mk is None or mk.const is not None or mk.idx is None)
        self.zid = mk.zid if mk is not None and mk.const is None else None
        self.const = mk.const if mk is not None and mk.const is not None else False
        self.m = a.mat()
        self.masked = self.zid is not None

    def z(self, t):
        return self.m.T @ E(self.length, t)

    def any(self, t):
        if self.zid is None:
            return self.const
        return ("anymask", self.zid, Lin.of(t))

    def key(self):
        return (self.m, self.zid, self.const)


MODELS = {}


def closed(key):
    """precondition of the recursion families: nothing in them varies with an enclosing loop"""
    vs = {l.vname for l in ST.loops if getattr(l, "vname", None)}
    for x in key:
        need(not isinstance(x, (Mat, Sc, Lin)) or not (alg.free_syms(x) & vs))


def model_of(A, C, Q, R, b, d, mu0, S0, Z):
    """the Model of given parameter values (shared between calls with equal arguments)"""
    obs = ArrObs(Z)
    Tn, m = obs.length, obs.width
    if not isinstance(mu0, Arr):
        raise NotApplicable
    n = mu0.dims()[0]
    need(mu0.ndim == 1, dims_ok(S0, 2, (n, n)), isinstance(S0, Arr), S0.ndim == 2,
         dims_ok(A, 2, (n, n), Tn - 1), dims_ok(C, 2, (m, n), Tn), dims_ok(Q, 2, (n, n), Tn - 1),
         dims_ok(R, 2, (m, m), Tn), dims_ok(b, 1, (n,), Tn - 1), dims_ok(d, 1, (m,), Tn))
    fns = dict(A=at_fn(A, 2, Tn - 1), C=at_fn(C, 2, Tn), Q=at_fn(Q, 2, Tn - 1), R=at_fn(R, 2, Tn),
               b=at_fn(b, 1, Tn - 1), d=at_fn(d, 1, Tn), mu0=at_fn(mu0, 1, ONE), S0=at_fn(S0, 2, ONE))
    key = tuple(keyform(fns[k], Tn - 1 if k in ("A", "Q", "b") else Tn) for k in sorted(fns)) + obs.key() + (Tn,)
    for k, v in zip(sorted(fns), key):
        if k in SYM and not isinstance(v, str) and not prove_eq(v, v.T):
            raise NotApplicable           # precondition: covariances are symmetric
    closed(key)
    r = MODELS.get(key)
    if r is None:
        r = Model("model%d" % (len(MODELS) + 1), {k: Const(f) for k, f in fns.items()}, obs, n, m, Tn)
        MODELS[key] = r
    LAST[0] = r
    return r


LAST = [None]


def last_model():
    return LAST[0]


def register_model(mod):
    """identify a specification model with the model built from its own values"""
    v = {k: mod.par[k].value() for k in SHAPE}
    return model_of(v["A"], v["C"], v["Q"], v["R"], v["b"], v["d"], v["mu0"], v["S0"], mod.obs.arr())


# ------------------------------------------------------------------ contracts
def _g_last_dims():
    def flex(nd):
        def setup():
            sub = (N, M)[:nd] if nd == 2 else (N,)
            fl = Flex("X", sub, T, lambda t: base("X", N, M if nd == 2 else ONE) if t is None else
                      base(("flex", "X"), N, M if nd == 2 else ONE, (t[1],)) if isinstance(t, tuple) else
                      base(("tv", "X"), N, M if nd == 2 else ONE, (t,)), "X")
            t = Lin.of("t0")
            ctx().assume(f_ge(t, ZERO))
            ctx().assume(f_lt(t, T))
            return dict(X=fl, t=mk_int(t), ndims=nd)
        return setup
    return [("ndims=1", flex(1)), ("ndims=2", flex(2))]


@contract(S + "_last_dims", "X t ndims", _g_last_dims)
def _c_last_dims(X, t, ndims):
    need(isinstance(X, Flex), ndims == X.sub_rank, is_intlike(t))
    t = Lin.of(t)
    need(decide(f_and(f_ge(t, ZERO), f_lt(t, X.length))) is True)
    m = X.at(t)
    a = param_arr(m, X.sub, X.owner)
    return Raw(a, m)


class Raw:
    """an array value with the caller's dtype and ownership"""

    def __init__(self, a, m):
        self.a, self.m = a, m

    def value(self):
        return self.a

    def __call__(self, res, label, out):
        from .contracts import Obligation, compare
        if isinstance(res, Flex):
            res = res.resolve()
        nd = len(self.a.dims())
        compare(res, (Vec if nd == 1 else Mtx)(self.m), label, out)


def _gen(spec):
    """generic arguments: name -> ('v', dim) | ('m', r, c[, sym])"""
    def setup():
        out = {}
        for k, s in spec.items():
            if s[0] == "v":
                out[k] = param_arr(base("arg:" + k, s[1]), (s[1],), k, "f")
            elif s[0] == "m":
                out[k] = param_arr(base("arg:" + k, s[1], s[2], (), len(s) > 3), (s[1], s[2]), k, "f")
            elif s[0] == "z":
                out[k] = param_arr(base("arg:" + k, s[1]), (s[1],), k, "f", mask=Mask("arg:" + k, ZERO))
        return out
    return lambda: [("any", setup)]


@contract(S + "_filter_predict", "transition_matrix transition_covariance transition_offset current_state_mean "
          "current_state_covariance",
          _gen(dict(transition_matrix=("m", N, N), transition_covariance=("m", N, N, 1), transition_offset=("v", N),
                    current_state_mean=("v", N), current_state_covariance=("m", N, N, 1))))
def _c_filter_predict(transition_matrix, transition_covariance, transition_offset, current_state_mean,
                      current_state_covariance):
    A, Q, b = mtx(transition_matrix), mtx(transition_covariance), vec(transition_offset)
    x, P = vec(current_state_mean), mtx(current_state_covariance)
    n = x.r
    need(same_dim(A.r, n), same_dim(A.c, n), same_dim(Q.r, n), same_dim(Q.c, n), same_dim(b.r, n), same_dim(P.r, n),
         same_dim(P.c, n))
    return (Vec(A @ x + b), Mtx(A @ P @ A.T + Q))


@contract(S + "_filter_correct", "observation_matrix observation_covariance observation_offset predicted_state_mean "
          "predicted_state_covariance observation",
          _gen(dict(observation_matrix=("m", M, N), observation_covariance=("m", M, M, 1), observation_offset=("v", M),
                    predicted_state_mean=("v", N), predicted_state_covariance=("m", N, N, 1), observation=("z", M))))
def _c_filter_correct(observation_matrix, observation_covariance, observation_offset, predicted_state_mean,
                      predicted_state_covariance, observation):
    C, R, d = mtx(observation_matrix), mtx(observation_covariance), vec(observation_offset)
    x, P = vec(predicted_state_mean), mtx(predicted_state_covariance)
    need(isinstance(observation, Arr), observation.ndim == 1)
    n, m = x.r, d.r
    need(same_dim(C.r, m), same_dim(C.c, n), same_dim(R.r, m), same_dim(R.c, m), same_dim(P.r, n), same_dim(P.c, n),
         same_dim(observation.dims()[0], m), P == P.T, R == R.T)
    f = observation.mk.any_formula() if observation.mk is not None else False
    if branch(f):
        return (Mtx(Mat.zero(n, m)), Vec(x), Mtx(P))
    z = data_mat(observation)
    K = P @ C.T @ inv(C @ P @ C.T + R)
    return (Mtx(K), Vec(x + K @ (z - C @ x - d)), Mtx(P - K @ C @ P))


@contract(S + "_smooth_update", "transition_matrix filtered_state_mean filtered_state_covariance predicted_state_mean "
          "predicted_state_covariance next_smoothed_state_mean next_smoothed_state_covariance",
          _gen(dict(transition_matrix=("m", N, N), filtered_state_mean=("v", N), filtered_state_covariance=("m", N, N, 1),
                    predicted_state_mean=("v", N), predicted_state_covariance=("m", N, N, 1),
                    next_smoothed_state_mean=("v", N), next_smoothed_state_covariance=("m", N, N, 1))))
def _c_smooth_update(transition_matrix, filtered_state_mean, filtered_state_covariance, predicted_state_mean,
                     predicted_state_covariance, next_smoothed_state_mean, next_smoothed_state_covariance):
    A, m, P = mtx(transition_matrix), vec(filtered_state_mean), mtx(filtered_state_covariance)
    pm, pP = vec(predicted_state_mean), mtx(predicted_state_covariance)
    sm, sP = vec(next_smoothed_state_mean), mtx(next_smoothed_state_covariance)
    n = m.r
    for X in (A, P, pP, sP):
        need(same_dim(X.r, n), same_dim(X.c, n))
    need(same_dim(pm.r, n), same_dim(sm.r, n), P == P.T, pP == pP.T, sP == sP.T)
    L = P @ A.T @ inv(pP)
    return (Vec(m + L @ (sm - pm)), Mtx(P + L @ (sP - pP) @ L.T), Mtx(L))


def _g_filter():
    def setup():
        mod = std_model("generic")
        FAMS.active = []
        v = {SHORT[k]: mod.par[k].value() for k in SHAPE}
        v["observations"] = mod.obs.arr()
        register_model(mod).activate()
        return v
    return [("all parameters constant or per step", setup)]


@contract(S + "_filter", "transition_matrices observation_matrices transition_covariance observation_covariance "
          "transition_offsets observation_offsets initial_state_mean initial_state_covariance observations", _g_filter)
def _c_filter(transition_matrices, observation_matrices, transition_covariance, observation_covariance,
              transition_offsets, observation_offsets, initial_state_mean, initial_state_covariance, observations):
    mod = model_of(transition_matrices, observation_matrices, transition_covariance, observation_covariance,
                   transition_offsets, observation_offsets, initial_state_mean, initial_state_covariance, observations)
    n, m, Tn = mod.n, mod.m, mod.T
    return (Seq(Tn, (n,), mod.pM.at), Seq(Tn, (n, n), mod.pP.at), Seq(Tn, (n, m), mod.K.at),
            Seq(Tn, (n,), mod.fM.at), Seq(Tn, (n, n), mod.fP.at))


def seq_fn(x, nd, sub):
    """entry function of a sequence array [T, ...]"""
    need(isinstance(x, Arr), x.ndim == nd + 1, all(same_dim(a, b) for a, b in zip(x.dims()[1:], sub)))
    from .vals import copy_arr
    y = copy_arr(x)
    return lambda t: y.entry(Lin.of(t))


SMOOTHERS = {}


def smoother_of(A, fM, fP, pM, pP):
    need(isinstance(fM, Arr), fM.ndim == 2)
    Tn, n = fM.dims()
    need(dims_ok(A, 2, (n, n), Tn - 1), isinstance(fP, Arr), isinstance(pM, Arr), isinstance(pP, Arr))
    for x in (fP, pM, pP):
        need(same_dim(x.dims()[0], Tn))
    fns = (at_fn(A, 2, Tn - 1), seq_fn(fM, 1, (n,)), seq_fn(fP, 2, (n, n)), seq_fn(pM, 1, (n,)), seq_fn(pP, 2, (n, n)))
    return smoother_fns(fns, n, Tn)


def smoother_fns(fns, n, Tn):
    key = tuple(keyform(f, Tn) for f in fns) + (n, Tn)
    for k in (2, 4):
        if isinstance(key[k], Mat) and not prove_eq(key[k], key[k].T):
            raise NotApplicable
    closed(key)
    r = SMOOTHERS.get(key)
    if r is None:
        r = Smoother("smoother%d" % (len(SMOOTHERS) + 1), *fns, n, Tn)
        SMOOTHERS[key] = r
    LAST_S[0] = r
    return r


LAST_S = [None]


def last_smoother():
    return LAST_S[0]


def smoother_of_model(mod):
    return smoother_fns((lambda t: mod.p("A", t), mod.fM.at, mod.fP.at, mod.pM.at, mod.pP.at), mod.n, mod.T)


def _g_smooth():
    def setup():
        A = Param("A", "flex", "~s").value()
        mk = lambda nm, sub, sym=False: new_fam((T,) + sub, lambda i: base("seq:" + nm, sub[0],
                                                                           sub[1] if len(sub) > 1 else ONE, (i,), sym),
                                                "f", nm, nm)
        v = dict(transition_matrices=A, filtered_state_means=mk("fm", (N,)), filtered_state_covariances=mk("fc", (N, N), True),
                 predicted_state_means=mk("pm", (N,)), predicted_state_covariances=mk("pc", (N, N), True))
        FAMS.active = []
        sm = smoother_of(*[v[k] for k in ("transition_matrices", "filtered_state_means", "filtered_state_covariances",
                                          "predicted_state_means", "predicted_state_covariances")])
        sm.activate()
        return v
    return [("arbitrary filtered and predicted moments", setup)]


@contract(S + "_smooth", "transition_matrices filtered_state_means filtered_state_covariances predicted_state_means "
          "predicted_state_covariances", _g_smooth)
def _c_smooth(transition_matrices, filtered_state_means, filtered_state_covariances, predicted_state_means,
              predicted_state_covariances):
    sm = smoother_of(transition_matrices, filtered_state_means, filtered_state_covariances, predicted_state_means,
                     predicted_state_covariances)
    n, Tn = sm.n, sm.T
    return (Seq(Tn, (n,), sm.sM.at), Seq(Tn, (n, n), sm.sP.at), Seq(Tn - 1, (n, n), sm.G.at))
