"""Independent reference semantics used by the concrete oracles.

Nothing here is imported from /repo.  The linear reference is *not* recursive:
it builds the joint Gaussian distribution of all states and all observed
observations and conditions it (so it is independent of any Kalman recursion).
"""
import numpy as np


def at(X, t, nd):
    X = np.asarray(X, dtype=float)
    return X[t] if X.ndim == nd + 1 else X


class Joint:
    """Joint Gaussian of x_0..x_{T-1}, z_0..z_{T-1} of a linear-Gaussian model."""

    def __init__(self, m, T):
        n, p = m["n"], m["p"]
        self.n, self.p, self.T = n, p, T
        mx = np.zeros(n * T)
        # x = L w + c  with w = (x0-dev, noises)
        Lx = np.zeros((n * T, n * T))
        Wx = np.zeros((n * T, n * T))
        for t in range(T):
            s = slice(n * t, n * t + n)
            if t == 0:
                mx[s] = m["m0"]
                Lx[s, s] = np.eye(n)
                Wx[s, s] = m["P0"]
            else:
                q = slice(n * (t - 1), n * t)
                A = at(m["A"], t - 1, 2)
                mx[s] = A @ mx[q] + at(m["b"], t - 1, 1)
                Lx[s, :] = A @ Lx[q, :]
                Lx[s, s] += np.eye(n)
                Wx[s, s] = at(m["Q"], t - 1, 2)
        H = np.zeros((p * T, n * T))
        d = np.zeros(p * T)
        RR = np.zeros((p * T, p * T))
        for t in range(T):
            s = slice(p * t, p * t + p)
            H[s, n * t:n * t + n] = at(m["C"], t, 2)
            d[s] = at(m["d"], t, 1)
            RR[s, s] = at(m["R"], t, 2)
        Sx = Lx @ Wx @ Lx.T
        self.mx, self.Sx = mx, Sx
        self.mz = H @ mx + d
        self.Sxz = Sx @ H.T
        self.Szz = H @ Sx @ H.T + RR

    def idx(self, steps):
        p = self.p
        return np.array([p * t + i for t in steps for i in range(p)], dtype=int)

    def cond(self, z, steps):
        """moments of all the states given the observations of `steps`"""
        k = self.idx(steps)
        if len(k) == 0:
            return self.mx, self.Sx
        S = self.Szz[np.ix_(k, k)]
        G = np.linalg.solve(S, self.Sxz[:, k].T).T
        zz = np.asarray(z, dtype=float).reshape(-1)[k]
        return self.mx + G @ (zz - self.mz[k]), self.Sx - G @ self.Sxz[:, k].T

    def loglik(self, z, steps):
        k = self.idx(steps)
        if len(k) == 0:
            return 0.0
        S = self.Szz[np.ix_(k, k)]
        e = np.asarray(z, dtype=float).reshape(-1)[k] - self.mz[k]
        sg, ld = np.linalg.slogdet(S)
        return -0.5 * (e @ np.linalg.solve(S, e) + ld + len(k) * np.log(2 * np.pi))


def observed_steps(mask, T):
    return [t for t in range(T) if mask is None or not np.any(mask[t])]


def ref_filter(m, z, mask):
    T, n = z.shape[0], m["n"]
    J = Joint(m, T)
    obs = observed_steps(mask, T)
    M, P = np.zeros((T, n)), np.zeros((T, n, n))
    pM, pP = np.zeros((T, n)), np.zeros((T, n, n))
    for t in range(T):
        s = slice(n * t, n * t + n)
        a, B = J.cond(z, [k for k in obs if k <= t])
        M[t], P[t] = a[s], B[s, s]
        a, B = J.cond(z, [k for k in obs if k < t])
        pM[t], pP[t] = a[s], B[s, s]
    return M, P, pM, pP


def ref_smooth(m, z, mask):
    """means, covariances and lag-one covariances cov(x_t, x_{t-1})"""
    T, n = z.shape[0], m["n"]
    J = Joint(m, T)
    a, B = J.cond(z, observed_steps(mask, T))
    M, P = np.zeros((T, n)), np.zeros((T, n, n))
    V = np.zeros((T, n, n))
    for t in range(T):
        s = slice(n * t, n * t + n)
        M[t], P[t] = a[s], B[s, s]
        if t:
            q = slice(n * (t - 1), n * t)
            V[t] = B[s, q]
    return M, P, V


def ref_loglik(m, z, mask):
    T = z.shape[0]
    return Joint(m, T).loglik(z, observed_steps(mask, T))


def pred_step(m, mean, cov, A=None, b=None, Q=None):
    A = at(m["A"], 0, 2) if A is None else np.asarray(A, float)
    b = at(m["b"], 0, 1) if b is None else np.asarray(b, float)
    Q = at(m["Q"], 0, 2) if Q is None else np.asarray(Q, float)
    return A @ mean + b, A @ cov @ A.T + Q


def corr_step(mean, cov, C, d, R, z):
    S = C @ cov @ C.T + R
    G = np.linalg.solve(S, C @ cov).T
    return mean + G @ (z - C @ mean - d), cov - G @ C @ cov


ORDER = ["observation_matrices", "observation_covariance", "transition_matrices",
         "transition_covariance", "initial_state_mean", "initial_state_covariance",
         "transition_offsets", "observation_offsets"]
SHORT = dict(zip(ORDER, ["C", "R", "A", "Q", "m0", "P0", "b", "d"]))


def ref_em_step(m, z, mask, sel):
    """one EM iteration; returns the new model dict (only `sel` changed)"""
    T, n, p = z.shape[0], m["n"], m["p"]
    M, P, V = ref_smooth(m, z, mask)
    obs = observed_steps(mask, T)
    new = dict(m)
    E = [P[t] + np.outer(M[t], M[t]) for t in range(T)]
    X = [None] + [V[t] + np.outer(M[t], M[t - 1]) for t in range(1, T)]
    z = np.asarray(z, float)
    pinv = np.linalg.pinv
    if "observation_matrices" in sel:
        a, B = np.zeros((p, n)), np.zeros((n, n))
        for t in obs:
            a += np.outer(z[t] - at(m["d"], t, 1), M[t])
            B += E[t]
        new["C"] = a @ pinv(B)
    if "observation_covariance" in sel:
        r = np.zeros((p, p))
        for t in obs:
            C = at(new["C"], t, 2)
            e = z[t] - at(m["d"], t, 1)
            r += (np.outer(e, e) - np.outer(e, C @ M[t]) - np.outer(C @ M[t], e)
                  + C @ E[t] @ C.T)
        new["R"] = r / max(len(obs), 1)
    if "transition_matrices" in sel:
        a, B = np.zeros((n, n)), np.zeros((n, n))
        for t in range(1, T):
            a += X[t] - np.outer(at(m["b"], t - 1, 1), M[t - 1])
            B += E[t - 1]
        new["A"] = a @ pinv(B)
    if "transition_covariance" in sel:
        r = np.zeros((n, n))
        for t in range(1, T):
            A, b = at(new["A"], t - 1, 2), at(m["b"], t - 1, 1)
            # E (x_t - A x_{t-1} - b)(...)'
            r += (E[t] - X[t] @ A.T - A @ X[t].T + A @ E[t - 1] @ A.T
                  - np.outer(M[t] - A @ M[t - 1], b) - np.outer(b, M[t] - A @ M[t - 1])
                  + np.outer(b, b))
        new["Q"] = r / max(T - 1, 1)
    if "initial_state_mean" in sel:
        new["m0"] = M[0].copy()
    if "initial_state_covariance" in sel:
        e = M[0] - np.asarray(new["m0"], float)
        new["P0"] = P[0] + np.outer(e, e)
    if "transition_offsets" in sel:
        r = np.zeros(n)
        for t in range(1, T):
            r += M[t] - at(new["A"], t - 1, 2) @ M[t - 1]
        new["b"] = r / max(T - 1, 1)
    if "observation_offsets" in sel:
        r = np.zeros(p)
        for t in obs:
            r += z[t] - at(new["C"], t, 2) @ M[t]
        new["d"] = r / max(len(obs), 1)
    return new


# ------------------------------------------------------------------ unscented
def ref_points(mu, S, alpha=1.0, beta=0.0, kappa=None):
    mu = np.asarray(mu, float)
    n = len(mu)
    kappa = 3.0 - n if kappa is None else kappa
    lam = alpha ** 2 * (n + kappa) - n
    L = np.linalg.cholesky(np.asarray(S, float))
    pts = [mu] + [mu + np.sqrt(n + lam) * L[:, i] for i in range(n)] \
        + [mu - np.sqrt(n + lam) * L[:, i] for i in range(n)]
    wm = np.array([lam / (n + lam)] + [0.5 / (n + lam)] * (2 * n))
    wc = wm.copy()
    wc[0] += 1 - alpha ** 2 + beta
    return np.array(pts), wm, wc


def moments(Y, wm, wc):
    mu = wm @ Y
    D = Y - mu
    return mu, (D * wc[:, None]).T @ D


def ref_aukf(f, g, m0, P0, Q, R, z, mask, start=None):
    """additive unscented filter + smoother. f(t), g(t) give the functions"""
    T, n = z.shape[0], len(m0)
    M, P = np.zeros((T, n)), np.zeros((T, n, n))
    for t in range(T):
        if t == 0:
            mu, S = np.asarray(m0, float), np.asarray(P0, float)
        else:
            X, wm, wc = ref_points(M[t - 1], P[t - 1])
            Y = np.array([f(t - 1)(x) for x in X])
            mu, S = moments(Y, wm, wc)
            S = S + Q
        M[t], P[t] = _aukf_correct(g(t), mu, S, R, z[t],
                                   mask is not None and np.any(mask[t]))
    return M, P


def _aukf_correct(g, mu, S, R, z, masked):
    if masked:
        return mu, S
    X, wm, wc = ref_points(mu, S)
    Y = np.array([g(x) for x in X])
    zm, V = moments(Y, wm, wc)
    V = V + R
    cross = ((X - mu) * wc[:, None]).T @ (Y - zm)
    K = np.linalg.solve(V, cross.T).T
    return mu + K @ (np.asarray(z, float) - zm), S - K @ cross.T


def ref_aukf_step(f, g, mean, cov, Q, R, z, masked):
    X, wm, wc = ref_points(mean, cov)
    Y = np.array([f(x) for x in X])
    mu, S = moments(Y, wm, wc)
    return _aukf_correct(g, mu, S + Q, R, z, masked)


def ref_aukf_smooth(f, M, P, Q):
    T = len(M)
    Ms, Ps = M.copy(), P.copy()
    for t in range(T - 2, -1, -1):
        X, wm, wc = ref_points(M[t], P[t])
        Y = np.array([f(t)(x) for x in X])
        mu, S = moments(Y, wm, wc)
        S = S + Q
        cross = ((X - M[t]) * wc[:, None]).T @ (Y - mu)
        G = np.linalg.solve(S, cross.T).T
        Ms[t] = M[t] + G @ (Ms[t + 1] - mu)
        Ps[t] = P[t] + G @ (Ps[t + 1] - S) @ G.T
    return Ms, Ps


def blockdiag(*B):
    n = sum(b.shape[0] for b in B)
    r = np.zeros((n, n))
    k = 0
    for b in B:
        r[k:k + len(b), k:k + len(b)] = b
        k += len(b)
    return r


def ref_ukf_step(f, g, mean, cov, Q, R, z, masked):
    """f None: no transition (first step)"""
    n, p = len(mean), len(R)
    X, wm, wc = ref_points(np.concatenate([mean, np.zeros(n + p)]), blockdiag(cov, Q, R))
    Y = X[:, :n] if f is None else np.array([f(x[:n], x[n:2 * n]) for x in X])
    mu, S = moments(Y, wm, wc)
    if masked:
        return mu, S
    H = np.array([g(y, x[2 * n:]) for y, x in zip(Y, X)])
    zm, V = moments(H, wm, wc)
    cross = ((Y - mu) * wc[:, None]).T @ (H - zm)
    K = np.linalg.solve(V, cross.T).T
    return mu + K @ (np.asarray(z, float) - zm), S - K @ cross.T


def ref_ukf(f, g, m0, P0, Q, R, z, mask):
    T, n = z.shape[0], len(m0)
    M, P = np.zeros((T, n)), np.zeros((T, n, n))
    mu, S = np.asarray(m0, float), np.asarray(P0, float)
    for t in range(T):
        mu, S = ref_ukf_step(f(t - 1) if t else None, g(t), mu, S, Q, R, z[t],
                             mask is not None and np.any(mask[t]))
        M[t], P[t] = mu, S
    return M, P


def ref_ukf_smooth(f, M, P, Q):
    T, n = M.shape
    Ms, Ps = M.copy(), P.copy()
    for t in range(T - 2, -1, -1):
        X, wm, wc = ref_points(np.concatenate([M[t], np.zeros(n)]), blockdiag(P[t], Q))
        Y = np.array([f(t)(x[:n], x[n:]) for x in X])
        mu, S = moments(Y, wm, wc)
        cross = ((X[:, :n] - M[t]) * wc[:, None]).T @ (Y - mu)
        G = np.linalg.solve(S, cross.T).T
        Ms[t] = M[t] + G @ (Ms[t + 1] - mu)
        Ps[t] = P[t] + G @ (Ps[t + 1] - S) @ G.T
    return Ms, Ps
