"""
reference computations, written from the definitions and sharing nothing with the code under test
"""
import math
import numpy as np
import scipy.linalg as sl
from vmon import ex, gen


class Unfit(Exception):
    """the model does not meet the preconditions of what is being checked"""


# ----------------------------------------------------------------------- structure

class Timing(object):
    """classification of the variables by the periods at which they appear"""

    def __init__(self, endog, eqs):
        seen = set()
        for q in eqs: seen |= {(a, int(b)) for a, b in ex.dated(q)}
        self.endog = list(endog)
        self.lag = [(y, -1) in seen for y in endog]
        self.cur = [(y, 0) in seen for y in endog]
        self.lead = [(y, 1) in seen for y in endog]
        k = range(len(endog))
        self.static = [i for i in k if not self.lag[i] and not self.lead[i]]
        self.back = [i for i in k if self.lag[i] and not self.lead[i]]
        self.mixed = [i for i in k if self.lag[i] and self.lead[i]]
        self.fwd = [i for i in k if not self.lag[i] and self.lead[i]]
        self.dr = self.static + self.back + self.mixed + self.fwd
        self.states = [i for i in self.dr if self.lag[i]]            # in decision-rule order
        self.states_dc = [i for i in k if self.lag[i]]
        self.forward_dc = [i for i in k if self.lead[i]]


class Deriv(object):
    """first and second derivatives with respect to (y(-1), y, y(+1), u) at a point"""

    def __init__(self, spec, ss, second=True, point=None):
        vals = gen.param_values(spec)
        endog, stoch = spec['endog'], spec['stoch']
        n, q = len(endog), len(stoch)
        m = 3*n + q
        env = dict(vals)
        for k, t in enumerate((-1, 0, 1)):
            for i, y in enumerate(endog):
                x = ss[i] if point is None else point[k*n + i]
                env[(y, t)] = ex.Jet.var(x, k*n + i, m)
        for j, s in enumerate(stoch):
            env[s] = ex.Jet.var(0.0 if point is None else point[3*n + j], 3*n + j, m)
        try:
            J = [ex.jet(ex.residual(eq), env, m) for eq in spec['eqs']]
        except ex.Undefined:
            raise Unfit('not differentiable here')
        self.n, self.q = n, q
        self.f = np.array([j.x for j in J])
        self.jac = np.array([j.g for j in J])
        self.hess = np.array([j.h for j in J])
        self.Am, self.A0, self.Ap, self.C = self.jac[:, :n], self.jac[:, n:2*n], self.jac[:, 2*n:3*n], self.jac[:, 3*n:]
        if not np.isfinite(self.jac).all() or not np.isfinite(self.hess).all(): raise Unfit('derivatives are not finite')


# ---------------------------------------------------------------------- first order

class FirstOrder(object):
    """
    roots of the linearised model and, when it is determinate, its stable solution
        y = G y(-1) + H u
    from the companion pencil of all variables
    """

    def __init__(self, Ap, A0, Am, C=None):
        n = len(A0)
        I, O = np.eye(n), np.zeros((n, n))
        # [I 0; 0 Ap] (y, y+)' = [0 I; -Am -A0] (y-, y)'
        L = np.block([[I, O], [O, Ap]])
        R = np.block([[O, I], [-Am, -A0]])
        AA, BB, al, be, Q, Z = sl.ordqz(R, L, sort=lambda a, b: np.abs(a) < np.abs(b), output='complex')
        al, be = np.abs(np.diag(AA)), np.abs(np.diag(BB))
        sc = max(1.0, np.abs(R).max(), np.abs(L).max())
        self.singular = bool(np.any((al < 1e-9*sc) & (be < 1e-9*sc)))
        with np.errstate(all='ignore'):
            self.eigs = np.diag(AA)/np.diag(BB)
        mod = np.where(be < 1e-12*sc, np.inf, al/np.maximum(be, 1e-300))
        self.mod = np.sort(mod)
        self.n_stable = int((mod < 1).sum())
        self.n = n
        self.gap = float(np.min(np.abs(np.log(np.clip(mod, 1e-8, 1e8)))))
        self.G = self.H = None
        self.rank_ok = None
        if self.n_stable == n and not self.singular:
            Z11, Z21 = Z[:n, :n], Z[n:, :n]
            sv = np.linalg.svd(Z11, compute_uv=False)
            self.sv = sv[-1]
            self.rank_ok = bool(sv[-1] > 1e-7)
            if self.rank_ok:
                self.G = np.real(Z21 @ np.linalg.inv(Z11))
                M = Ap @ self.G + A0
                self.condM = np.linalg.cond(M)
                if C is not None and self.condM < 1e12:
                    self.H = -np.linalg.solve(M, C)

    @property
    def determinate(self):
        return self.n_stable == self.n and not self.singular and bool(self.rank_ok)

    def well(self, gap=.02, cond=1e5, sv=1e-4):
        """comfortably determinate: far from the boundaries where floating point decides"""
        return self.determinate and self.gap > gap and self.condM < cond and self.sv > sv and \
            np.abs(self.G).max() < 1e3


def analyse(spec, ss=None, second=False):
    ss = np.array([spec['ss'][y] for y in spec['endog']], dtype=float) if ss is None else np.asarray(ss, dtype=float)
    d = Deriv(spec, ss)
    return d, FirstOrder(d.Ap, d.A0, d.Am, d.C)


def regular_ss(d, tol=1e-9, cond=1e4):
    """the intended steady state solves the static equations and is locally unique"""
    S = d.Am + d.A0 + d.Ap
    return np.abs(d.f).max() < tol and np.linalg.cond(S) < cond


def classes_ok(spec):
    """every variable appears in the current period, and something is dynamic"""
    t = Timing(spec['endog'], spec['eqs'])
    return all(t.cur) and len(t.static) < len(t.endog)


# ----------------------------------------------- the policy function as reported, in full form

class Policy(object):
    """
    the reported policy function, rows and states in declaration order:
        y = ss + G x + H u [+ xx + xu + uu + del2]
    with x the deviation of all variables last period (columns of non-states are zero)
    """

    def __init__(self, spec_or_timing, sol, ss, q):
        T = spec_or_timing if isinstance(spec_or_timing, Timing) else Timing(spec_or_timing['endog'], spec_or_timing['eqs'])
        n, k = len(T.endog), len(T.states)
        self.T, self.n, self.k, self.q = T, n, k, q
        self.ss = np.asarray(ss, dtype=float)
        self.order = sol.order
        inv = np.argsort(T.dr)
        pos = T.states

        def mat(a, *dims):
            a = np.asarray(a, dtype=float)
            if a.size != int(np.prod([n, *dims])):
                raise AssertionError(f'array of {a.shape} where {n} x {dims} numbers belong')
            return a.reshape((n, *dims))[inv]
        low = sol.lower_solution if self.order == 2 else sol
        self.Gs, self.H = mat(low.gy, k), mat(low.gu, q)
        self.G = np.zeros((n, n)); self.G[:, pos] = self.Gs
        self.second = self.order == 2
        if self.second:
            xx, xu, uu = mat(sol.ghxx, k, k), mat(sol.ghxu, k, q), mat(sol.ghuu, q, q)
            self.xx = np.zeros((n, n, n)); self.xx[np.ix_(range(n), pos, pos)] = xx
            self.xu = np.zeros((n, n, q)); self.xu[:, pos, :] = xu
            self.uu = uu
            self.del2 = mat(sol.del2)

    def step(self, x, u, order=None):
        """next deviation from the steady state"""
        order = order or self.order
        y = self.G @ x + self.H @ u
        if order == 2:
            y = y + self.del2 + np.einsum('ijk,j,k->i', self.xx, x, x) + np.einsum('ijk,j,k->i', self.xu, x, u) \
                + np.einsum('ijk,j,k->i', self.uu, u, u)
        return y

    def path(self, U, periods, init=None, order=None):
        """levels; row 0 is the initial condition and row t uses the previous row of shocks"""
        y = np.zeros(self.n) if init is None else np.asarray(init, dtype=float) - self.ss
        out = [y]
        for t in range(1, periods):
            y = self.step(y, U[t-1], order)
            out.append(y)
        return np.array(out) + self.ss


# --------------------------------------------------------------------------- moments

def lyapunov(G, Q):
    """X = G X G' + Q by doubling, independent of scipy's solver"""
    X, A = Q.copy(), G.copy()
    for _ in range(60):
        X2 = X + A @ X @ A.T
        A = A @ A
        if np.abs(X2 - X).max() <= 1e-16*max(1, np.abs(X2).max()):
            X = X2; break
        X = X2
    return (X + X.T)/2


def moments(G, H, S, lags=5):
    V = lyapunov(G, H @ S @ H.T)
    ac, P = [], V
    for _ in range(lags):
        P = G @ P
        ac.append(P)
    return V, ac
