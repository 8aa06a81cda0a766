"""Contracts of the square root filters (pykalman/sqrt/cholesky.py).

A factor is specified by its Gram matrix only: the result is *some* matrix L with L L' = G
(or U with U' U = G), so that any factorisation meets the contract."""
from .alg import Mat, base, inv, tri
from .contracts import CON, Mtx, NotApplicable, Obligation, Seq, Vec, compare, contract
from .fams import FAMS
from .lin import Lin, ONE, ZERO, branch, ctx, f_ge, f_lt
from .spec import M, N, SHAPE, SHORT, T, std_model
from .std import _gen, dims_ok, model_of, mtx, need, register_model, vec
from .vals import Arr, Flex, Mask, as_arr, data_mat, fresh, mk_int, new_arr, new_fam, param_arr, same_dim

C = "pykalman.sqrt.cholesky."


class Root:
    """some L with L L' = G (low) or some U with U' U = G"""

    def __init__(self, g, low=True):
        self.g, self.low = g, low

    def value(self):
        u = tri(("ret", fresh("root")), self.g)
        return new_arr(u.T if self.low else u, (self.g.r, self.g.c))

    def __call__(self, res, label, out):
        if not isinstance(res, Arr) or res.ndim != 2:
            out.append(Obligation(label, False, "result is not a matrix", definite=True))
            return
        y = res.mat()
        compare(new_arr(y @ y.T if self.low else y.T @ y, (y.r, y.r) if self.low else (y.c, y.c)), Mtx(self.g),
                label + (" L L'" if self.low else " U' U"), out)


class RootSeq:
    def __init__(self, n, sub, fn, low=True):
        self.n, self.sub, self.fn, self.low = Lin.of(n), tuple(Lin.of(s) for s in sub), fn, low

    def value(self):
        tag = ("ret", fresh("roots"))

        def at(t):
            u = tri(tag, self.fn(t))
            return u.T if self.low else u
        return new_fam((self.n,) + self.sub, at)

    def __call__(self, res, label, out):
        if not isinstance(res, Arr) or res.ndim != 3:
            out.append(Obligation(label, False, "result is not a sequence of matrices", definite=True))
            return

        def at(t):
            y = res.entry(Lin.of(t))
            return y @ y.T if self.low else y.T @ y
        d = res.dims()
        compare(new_fam(d, at), Seq(self.n, self.sub, self.fn), label + (" L L'" if self.low else " U' U"), out)


def _g_rec():
    def seq():
        FAMS.active = []
        return dict(covariance2s=new_fam((T, N, N), lambda i: base("arg:roots", N, N, (i,)), "f", "covariance2s", "covariance2s"))

    def one():
        FAMS.active = []
        return dict(covariance2s=param_arr(base("arg:root", N, N), (N, N), "covariance2s", "f"))
    return [("a sequence", seq), ("one matrix", one)]


def _reconstruct(low):
    def spec(covariance2s):
        x = covariance2s
        need(isinstance(x, Arr))
        g = (lambda y: y @ y.T) if low else (lambda y: y.T @ y)
        if x.ndim == 2:
            m = mtx(x)
            need(same_dim(m.r, m.c))
            return Seq(ONE, (m.r, m.r), lambda t: g(m))
        need(x.ndim == 3)
        d = x.dims()
        need(same_dim(d[1], d[2]))
        from .vals import copy_arr
        y = copy_arr(x)
        return Seq(d[0], (d[1], d[2]), lambda t: g(y.entry(Lin.of(t))))
    return spec


_c_rec = contract(C + "_reconstruct_covariances", "covariance2s", _g_rec)(_reconstruct(True))


@contract(C + "_filter_predict", "transition_matrix transition_covariance2 transition_offset current_state_mean "
          "current_state_covariance2",
          _gen(dict(transition_matrix=("m", N, N), transition_covariance2=("m", N, N), transition_offset=("v", N),
                    current_state_mean=("v", N), current_state_covariance2=("m", N, N))))
def _c_filter_predict(transition_matrix, transition_covariance2, transition_offset, current_state_mean,
                      current_state_covariance2):
    A, Q, b = mtx(transition_matrix), mtx(transition_covariance2), vec(transition_offset)
    x, P = vec(current_state_mean), mtx(current_state_covariance2)
    n = x.r
    need(same_dim(b.r, n), *[same_dim(d, n) for m in (A, Q, P) for d in (m.r, m.c)])
    return (Vec(A @ x + b), Root(A @ P @ P.T @ A.T + Q @ Q.T))


@contract(C + "_filter_correct", "observation_matrix observation_covariance2 observation_offset predicted_state_mean "
          "predicted_state_covariance2 observation",
          _gen(dict(observation_matrix=("m", M, N), observation_covariance2=("m", M, M), observation_offset=("v", M),
                    predicted_state_mean=("v", N), predicted_state_covariance2=("m", N, N), observation=("z", M))))
def _c_filter_correct(observation_matrix, observation_covariance2, observation_offset, predicted_state_mean,
                      predicted_state_covariance2, observation):
    H, R2, d = mtx(observation_matrix), mtx(observation_covariance2), vec(observation_offset)
    x, P2 = vec(predicted_state_mean), mtx(predicted_state_covariance2)
    need(isinstance(observation, Arr), observation.ndim == 1)
    n, m = x.r, d.r
    need(same_dim(H.r, m), same_dim(H.c, n), same_dim(R2.r, m), same_dim(R2.c, m), same_dim(P2.r, n), same_dim(P2.c, n),
         same_dim(observation.dims()[0], m))
    P, R = P2 @ P2.T, R2 @ R2.T
    f = observation.mk.any_formula() if observation.mk is not None else False
    if branch(f) if not isinstance(f, bool) else f:
        return (Vec(x), Root(P))
    z = data_mat(observation)
    K = P @ H.T @ inv(H @ P @ H.T + R)
    return (Vec(x + K @ (z - H @ x - d)), Root(P - K @ H @ P))


def const_cov(Q, R, S0):
    for x in (Q, R, S0):
        need(isinstance(x, Arr), x.ndim == 2)


SQ_MODES = dict(Q="const", R="const", mu0="const", S0="const")


def sqrt_model(name="sqrt"):
    return std_model(name, {k: SQ_MODES.get(k, "flex") for k in SHAPE})


def _g_filter(ab):
    def setup():
        FAMS.active = []
        FAMS.abstractions = ("id",) + ab
        mod = sqrt_model("generic-sqrt")
        v = {SHORT[k]: mod.par[k].value() for k in SHAPE}
        v["observations"] = mod.obs.arr()
        register_model(mod).activate()
        return v
    return lambda: [("transition and observation matrices and offsets constant or per step", setup)]


@contract(C + "_filter", "transition_matrices observation_matrices transition_covariance observation_covariance "
          "transition_offsets observation_offsets initial_state_mean initial_state_covariance observations", _g_filter(("LLt",)))
def _c_filter(transition_matrices, observation_matrices, transition_covariance, observation_covariance,
              transition_offsets, observation_offsets, initial_state_mean, initial_state_covariance, observations):
    const_cov(transition_covariance, observation_covariance, initial_state_covariance)
    mod = model_of(transition_matrices, observation_matrices, transition_covariance, observation_covariance,
                   transition_offsets, observation_offsets, initial_state_mean, initial_state_covariance, observations)
    n, Tn = mod.n, mod.T
    return (Seq(Tn, (n,), mod.pM.at), RootSeq(Tn, (n, n), mod.pP.at), Seq(Tn, (n,), mod.fM.at), RootSeq(Tn, (n, n), mod.fP.at))
