"""Contracts of the EM functions (pykalman/standard.py) and the specification of one EM step:
the closed-form maximisers of the expected complete-data log-likelihood."""
from . import alg
from .alg import Mat, Sc, base, inv, mat_sum, sc_sum
from .contracts import Mtx, NotApplicable, Real, Seq, Vec, contract
from .fams import FAMS
from .lin import Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_not
from .spec import LEN, M, N, SHAPE, SHORT, SYM, T, Obs, Param, std_model
from .std import S, ArrObs, at_fn, dims_ok, mtx, need, seq_fn, vec
from .vals import Arr, Flex, SReal, no_branching, range_facts, fresh, new_arr, new_fam, param_arr, same_dim


def osum(obs, Tn, body, mat=True):
    """sum over the observed steps"""
    t = Lin.of("t")
    g = obs.any(t)
    with range_facts("t", Tn), no_branching():
        b = body(t)
    if g is True:
        return Mat.zero(b.r, b.c) if mat else Sc.of(0)
    gs = () if g is False else (f_not(g),)
    return mat_sum(Tn, b, "t", gs) if mat else sc_sum(Tn, b, "t", gs)


def tsum(n, body):
    t = Lin.of("t")
    with range_facts("t", n), no_branching():
        b = body(t)
    return mat_sum(n, b, "t")


def n_obs(obs, Tn):
    return osum(obs, Tn, lambda t: Sc.of(1), False)


def positive(s):
    return bool(SReal(s) > 0)


def em_C(obs, Tn, d, m, V):
    r1 = osum(obs, Tn, lambda t: (obs.z(t) - d(t)) @ m(t).T)
    r2 = osum(obs, Tn, lambda t: V(t) + m(t) @ m(t).T)
    return r1 @ inv(r2)


def em_R(obs, Tn, d, C, m, V):
    def body(t):
        e = obs.z(t) - C(t) @ m(t) - d(t)
        return e @ e.T + C(t) @ V(t) @ C(t).T
    r = osum(obs, Tn, body)
    k = n_obs(obs, Tn)
    return r.scale(1 / k) if positive(k) else r


def em_A(Tn, b, m, V, W):
    """W(t): covariance of steps t and t-1 (t >= 1)"""
    if not branch(f_ge(Tn, Lin(2))):
        return Mat.zero(m(ZERO).r, m(ZERO).r)
    r1 = tsum(Tn - 1, lambda t: W(t + 1) + m(t + 1) @ m(t).T - b(t) @ m(t).T)
    r2 = tsum(Tn - 1, lambda t: V(t) + m(t) @ m(t).T)
    return r1 @ inv(r2)


def em_Q(Tn, A, b, m, V, W):
    def body(t):
        e = m(t + 1) - A(t) @ m(t) - b(t)
        c = W(t + 1) @ A(t).T
        return e @ e.T + A(t) @ V(t) @ A(t).T + V(t + 1) - c - c.T
    if not branch(f_ge(Tn, Lin(2))):
        return Mat.zero(m(ZERO).r, m(ZERO).r)
    return tsum(Tn - 1, body).scale(1 / Sc.of(Tn - 1))


def em_S0(mu0, m, V):
    x = m(ZERO)
    return V(ZERO) + (x - mu0) @ (x - mu0).T


def em_b(Tn, A, m):
    n = m(ZERO).r
    if not branch(f_ge(Tn, Lin(2))):
        return Mat.zero(n, ONE)
    return tsum(Tn - 1, lambda t: m(t + 1) - A(t) @ m(t)).scale(1 / Sc.of(Tn - 1))


def em_d(obs, Tn, C, m):
    r = osum(obs, Tn, lambda t: obs.z(t) - C(t) @ m(t))
    k = n_obs(obs, Tn)
    return r.scale(1 / k) if positive(k) else r


ORDER = ["C", "R", "A", "Q", "mu0", "S0", "b", "d"]


def em_step(par, obs, Tn, m, V, W, given):
    """par: key -> function of time (current values); given(key) -> the parameter is kept.
    Returns key -> new value (Mat) or None when kept"""
    cur = dict(par)
    out = {}
    for k in ORDER:
        if given(k):
            out[k] = None
            continue
        p = cur
        x = {"C": lambda: em_C(obs, Tn, p["d"], m, V),
             "R": lambda: em_R(obs, Tn, p["d"], p["C"], m, V),
             "A": lambda: em_A(Tn, p["b"], m, V, W),
             "Q": lambda: em_Q(Tn, p["A"], p["b"], m, V, W),
             "mu0": lambda: m(ZERO),
             "S0": lambda: em_S0(p["mu0"](ZERO), m, V),
             "b": lambda: em_b(Tn, p["A"], m),
             "d": lambda: em_d(obs, Tn, p["C"], m)}[k]()
        out[k] = x
        cur[k] = lambda t, x=x: x
    return out


# ------------------------------------------------------------------ contracts
def _seqs(*names):
    sub = dict(smoothed_state_means=(N,), smoothed_state_covariances=(N, N), pairwise_covariances=(N, N),
               kalman_smoothing_gain=(N, N))

    def mk(nm):
        s = sub[nm]
        n = T - 1 if nm == "kalman_smoothing_gain" else T
        return new_fam((n,) + s, lambda i: base("em:" + nm, s[0], s[1] if len(s) > 1 else ONE, (i,),
                                                nm == "smoothed_state_covariances"), "f", nm, nm)
    return {k: mk(k) for k in names}


PKEY = dict(observation_offsets="d", observation_matrices="C", transition_offsets="b", transition_matrices="A")


def _gen_em(*names):
    def setup():
        FAMS.active = []
        v = {}
        for k in names:
            if k == "observations":
                v[k] = Obs().arr()
            elif k in PKEY:
                v[k] = Param(PKEY[k], "flex", "~em").value()
            elif k == "initial_state_mean":
                v[k] = param_arr(base("arg:mu0", N), (N,), k, "f")
            else:
                v.update(_seqs(k))
        return v
    return lambda: [("any", setup)]


def means(m, n=None):
    need(isinstance(m, Arr), m.ndim == 2)
    return seq_fn(m, 1, (m.dims()[1],)), m.dims()[0], m.dims()[1]


def covs(V, Tn, n):
    need(isinstance(V, Arr), V.ndim == 3, same_dim(V.dims()[0], Tn))
    f = seq_fn(V, 2, (n, n))
    return f


def par_fn(x, nd, sub, n):
    need(dims_ok(x, nd, sub, n))
    return at_fn(x, nd, n)


@contract(S + "_smooth_pair", "smoothed_state_covariances kalman_smoothing_gain",
          _gen_em("smoothed_state_covariances", "kalman_smoothing_gain"))
def _c_smooth_pair(smoothed_state_covariances, kalman_smoothing_gain):
    V, G = smoothed_state_covariances, kalman_smoothing_gain
    need(isinstance(V, Arr), isinstance(G, Arr), V.ndim == 3, G.ndim == 3)
    Tn, n = V.dims()[0], V.dims()[1]
    need(same_dim(G.dims()[0], Tn - 1))
    v, g = covs(V, Tn, n), seq_fn(G, 2, (n, n))

    def at(t):
        if branch(f_eq(t, ZERO)):
            return Mat.zero(n, n)
        return v(t) @ g(t - 1).T
    return Seq(Tn, (n, n), at)


@contract(S + "_em_observation_matrix", "observations observation_offsets smoothed_state_means smoothed_state_covariances",
          _gen_em("observations", "observation_offsets", "smoothed_state_means", "smoothed_state_covariances"))
def _c_em_C(observations, observation_offsets, smoothed_state_means, smoothed_state_covariances):
    o = ArrObs(observations)
    m, Tn, n = means(smoothed_state_means)
    need(same_dim(o.length, Tn))
    d = par_fn(observation_offsets, 1, (o.width,), Tn)
    return Mtx(em_C(o, Tn, d, m, covs(smoothed_state_covariances, Tn, n)))


@contract(S + "_em_observation_covariance",
          "observations observation_offsets observation_matrices smoothed_state_means smoothed_state_covariances",
          _gen_em("observations", "observation_offsets", "observation_matrices", "smoothed_state_means",
                  "smoothed_state_covariances"))
def _c_em_R(observations, observation_offsets, observation_matrices, smoothed_state_means, smoothed_state_covariances):
    o = ArrObs(observations)
    m, Tn, n = means(smoothed_state_means)
    need(same_dim(o.length, Tn))
    d = par_fn(observation_offsets, 1, (o.width,), Tn)
    C = par_fn(observation_matrices, 2, (o.width, n), Tn)
    return Mtx(em_R(o, Tn, d, C, m, covs(smoothed_state_covariances, Tn, n)))


@contract(S + "_em_transition_matrix",
          "transition_offsets smoothed_state_means smoothed_state_covariances pairwise_covariances",
          _gen_em("transition_offsets", "smoothed_state_means", "smoothed_state_covariances", "pairwise_covariances"))
def _c_em_A(transition_offsets, smoothed_state_means, smoothed_state_covariances, pairwise_covariances):
    m, Tn, n = means(smoothed_state_means)
    b = par_fn(transition_offsets, 1, (n,), Tn - 1)
    return Mtx(em_A(Tn, b, m, covs(smoothed_state_covariances, Tn, n), covs(pairwise_covariances, Tn, n)))


@contract(S + "_em_transition_covariance",
          "transition_matrices transition_offsets smoothed_state_means smoothed_state_covariances pairwise_covariances",
          _gen_em("transition_matrices", "transition_offsets", "smoothed_state_means", "smoothed_state_covariances",
                  "pairwise_covariances"))
def _c_em_Q(transition_matrices, transition_offsets, smoothed_state_means, smoothed_state_covariances,
            pairwise_covariances):
    m, Tn, n = means(smoothed_state_means)
    A = par_fn(transition_matrices, 2, (n, n), Tn - 1)
    b = par_fn(transition_offsets, 1, (n,), Tn - 1)
    return Mtx(em_Q(Tn, A, b, m, covs(smoothed_state_covariances, Tn, n), covs(pairwise_covariances, Tn, n)))


@contract(S + "_em_initial_state_mean", "smoothed_state_means", _gen_em("smoothed_state_means"))
def _c_em_mu0(smoothed_state_means):
    m, Tn, n = means(smoothed_state_means)
    return Vec(m(ZERO))


@contract(S + "_em_initial_state_covariance", "initial_state_mean smoothed_state_means smoothed_state_covariances",
          _gen_em("initial_state_mean", "smoothed_state_means", "smoothed_state_covariances"))
def _c_em_S0(initial_state_mean, smoothed_state_means, smoothed_state_covariances):
    m, Tn, n = means(smoothed_state_means)
    mu = vec(initial_state_mean)
    need(same_dim(mu.r, n))
    return Mtx(em_S0(mu, m, covs(smoothed_state_covariances, Tn, n)))


@contract(S + "_em_transition_offset", "transition_matrices smoothed_state_means",
          _gen_em("transition_matrices", "smoothed_state_means"))
def _c_em_b(transition_matrices, smoothed_state_means):
    m, Tn, n = means(smoothed_state_means)
    return Vec(em_b(Tn, par_fn(transition_matrices, 2, (n, n), Tn - 1), m))


@contract(S + "_em_observation_offset", "observation_matrices smoothed_state_means observations",
          _gen_em("observation_matrices", "smoothed_state_means", "observations"))
def _c_em_d(observation_matrices, smoothed_state_means, observations):
    o = ArrObs(observations)
    m, Tn, n = means(smoothed_state_means)
    need(same_dim(o.length, Tn))
    return Vec(em_d(o, Tn, par_fn(observation_matrices, 2, (o.width, n), Tn), m))
