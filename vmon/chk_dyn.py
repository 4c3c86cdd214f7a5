"""C13-C18: simulations, impulse responses, sample statistics, theoretical moments"""
import math
import numpy as np
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, rng_for
from vmon.common import *
from vmon.chk_solve import structured

ASSUME = ['models are comfortably determinate (roots at least 2% away from the unit circle) with positive definite shock covariance',
          'the policy function is taken as reported by the solution (C10 and C12 judge that it is right)']


def usable(spec, need_state=False):
    """first-order simulations need shocks and at least one state (refused loudly otherwise)"""
    k = shape_key(spec)
    return k[4] > 0 and (not need_state or k[1] + k[2] > 0)


def prepared(case, mon, order=None):
    spec = case['spec']
    md = quiet_build(spec, case.get('route', 'kwargs'))
    sol = quiet_solve(md, order or case['order'])
    ss = near_ss(md, spec)
    try:
        P = oracle.Policy(spec, sol, ss, len(spec['stoch']))
    except Exception:
        raise Skip('solution arrays are not usable')
    return spec, md, sol, ss, P, gen.sigma_of(spec)


def damp(spec, P, S, scale):
    """shocks small enough for second-order paths to stay bounded"""
    return scale


class C13(Check):
    prop = 'C13'
    rule = ('random and structure-covering models x order (given, existing, default) x shocks (given matrix, given vector, drawn) x initial values; '
            'every row of every path is recomputed from the reported policy; distinct by structure, order, kind of shocks, kind of initial values')
    assumptions = ASSUME + ['first-order simulation of models without shocks or without states is refused by design (NotImplementedError)',
                            'paths that leave the range of floating point (non-pruned second order under large shocks) are compared up to that point']
    sizes = dict(quick=600, thorough=20000)

    def fixed(self, tier):
        out = []
        for nl in (False, True):
            for s in structured('C13', nl):
                for o in (1, 2):
                    if usable(s, o == 1):
                        out.append(dict(spec=s, order=o, mode=['given', 'random', 'zero'][len(out) % 3], init=len(out) % 2, periods=8 + len(out) % 5, seed=len(out), scale=.3))
        for s in structured('C13', False)[6:12]:
            if usable(s, True): out.append(dict(spec=s, order=1, mode='random', init=0, periods=6000, seed=5, scale=1.))
        return out

    def gen(self, rng, i, tier):
        o = int(rng.integers(1, 3))
        spec = pick_model(rng, nonlinear=bool(rng.random() < .6), regime=['contraction', 'general'][i % 2], start=.2)
        if spec is None or not usable(spec, o == 1): return None
        return dict(spec=spec, order=o, mode=['given', 'given', 'random', 'zero', 'impulse'][i % 5], init=int(rng.integers(2)),
                    periods=int(rng.choice([1, 2, 3, 20, 37])) if i % 15 != 2 else 5000, seed=int(rng.integers(1 << 30)),
                    scale=float(rng.choice([.01, .1, .5])), how=int(rng.integers(3)), route=['kwargs', 'file'][i % 2])

    def run(self, case, mon):
        spec, md, sol, ss, P, S = prepared(case, mon)
        rng = rng_for('C13run', case['seed'])
        n, q, T, o = len(ss), len(spec['stoch']), case['periods'], case['order']
        how = case.get('how', 0)
        kw = [dict(order=o), dict(), dict(order=o)][how]
        if how == 2:
            # solved at the other order before: the requested order counts
            try: md.solve(order=3 - o)
            except Exception: raise Skip('not solved')
        L = np.linalg.cholesky(S)                       # lower; unit shocks -> L @ unit
        init = None
        if case['init']:
            init = ss + np.round(rng.normal(size=n)*case['scale']*.3, 3)
            kind = ['near', 'near', 'zeros', 'whole', 'zeros', 'some', 'far'][int(rng.integers(7))]
            if not spec['nonlinear'] or o == 1:
                if kind == 'zeros': init = np.zeros(n)
                elif kind == 'whole': init = np.round(ss).astype(int) + rng.integers(-1, 2, n)
                elif kind == 'far': init = ss + np.round(rng.normal(size=n)*30, 1)
            if kind == 'some': init = np.where(rng.random(n) < .5, ss, init)
            kw['init'] = init.copy()
            mon.tally('initial values:' + kind)
        mode = case['mode']
        given = None
        if mode == 'given': given = np.round(rng.normal(size=(T, q))*case['scale'], 3)
        elif mode == 'zero': given = np.zeros((T, q))
        elif mode == 'impulse': given = np.zeros((T, q)); given[0, rng.integers(q)] = 1.
        if given is None:
            np.random.seed(case['seed'] % (1 << 31))
            sim = md.simulate(periods=T, **kw)
        else:
            arg = given[:, 0] if q == 1 and rng.random() < .5 else given
            arg0 = arg.copy()
            sim = md.simulate(arg, **kw)
            mon.true('shocks passed in are left alone', np.array_equal(arg, arg0), 'the array of shocks was changed')
        if init is not None: mon.true('initial values passed in are left alone', np.array_equal(kw['init'], init), 'the initial values were changed')
        paths = np.array(sim.paths, dtype=float)
        U = np.asarray(sim.shocks, dtype=float)
        mon.equal('order of the simulation', sim.order, o)
        if not mon.equal('number of rows', (paths.shape, sim.periods), ((T, n), T)): return
        if not mon.equal('shape of recorded shocks', U.shape, (T, q)): return
        if given is not None:
            mon.close('shocks are standard deviations correlated as stated', U, given @ L.T, 1e-9, max(1e-9, np.abs(given @ L.T).max()))
            U = given @ L.T
        elif T >= 3000:
            C = U.T @ U/T
            se = np.sqrt((np.outer(np.diag(S), np.diag(S)) + S**2)/T)
            mon.true('random shocks have the model\'s covariance matrix', (np.abs(C - S) < 6.5*se).all(), lambda: f'sample {C} model {S}')
            m = U.mean(0)
            mon.true('random shocks have mean zero', (np.abs(m) < 6.5*np.sqrt(np.diag(S)/T)).all(), lambda: f'{m}')
            a1 = (U[1:]*U[:-1]).mean(0)/np.diag(S)
            mon.true('random shocks are serially uncorrelated', (np.abs(a1) < 6.5/math.sqrt(T)).all(), lambda: f'{a1}')
        # row by row, each from the reported previous row
        mon.close('first row is the initial condition', paths[0], ss if init is None else init, 1e-12, what='row 0')
        bad = 0
        for t in range(1, T if T < 100 else 100):
            x = paths[t-1] - ss
            if not np.isfinite(x).all() or np.abs(x).max() > 1e6: break
            want = ss + P.step(x, U[t-1], o)
            # the recorded level loses digits relative to its own size
            ok = mon.close('each row is the policy of the previous one', paths[t], want, 1e-8, what=f'row {t}')
            bad += not ok
            if bad > 2: break
        # again: same shocks, same path, and a different path in between does not matter
        if given is not None and T > 1:
            other = md.simulate(given[::-1]*1.7 + .1, **({'order': o} if how != 1 else {}))
            again = md.simulate(given, **kw)
            mon.true('same shocks, same path', np.array_equal(again.paths, paths, equal_nan=True), lambda: f'{short_diff(again.paths, paths)}')
            mon.true('recorded paths stay as they were', np.array_equal(sim.paths, paths, equal_nan=True), 'an earlier simulation was changed by a later one')
        tally_model(mon, spec)
        mon.tally('order:%d' % o, 'shocks:' + mode, 'init' if case['init'] else 'steady state')
        if T > 1: mon.seen(shape_key(spec), o, mode, case['init'], spec['nonlinear'], how)


def short_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return f'shapes {a.shape} {b.shape}'
    return f'largest difference {np.nanmax(np.abs(a - b))}'


class C14(Check):
    prop = 'C14'
    rule = ('random and structure-covering models x order x named shock(s) x size x length; the whole response is recomputed from the reported '
            'policy; distinct by structure, order and kind of request')
    assumptions = ASSUME + ['with correlated shocks the impulse is one to the named shock before correlation is imposed (upper Cholesky factor), as in simulations']
    sizes = dict(quick=350, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, order=o, periods=9, seed=j) for nl in (False, True) for j, s in enumerate(structured('C14', nl)) for o in (1, 2)
                if usable(s, o == 1)]

    def gen(self, rng, i, tier):
        o = int(rng.integers(1, 3))
        spec = pick_model(rng, nonlinear=bool(rng.random() < .6), regime=['contraction', 'general'][i % 2], start=.2)
        if spec is None or not usable(spec, o == 1): return None
        return dict(spec=spec, order=o, periods=int(rng.choice([1, 2, 5, 20, 40])), seed=int(rng.integers(1 << 30)), route=['kwargs', 'file'][i % 2])

    def run(self, case, mon):
        spec, md, sol, ss, P, S = prepared(case, mon)
        rng = rng_for('C14run', case['seed'])
        n, q, T, o = len(ss), len(spec['stoch']), case['periods'], case['order']
        L = np.linalg.cholesky(S)

        def want(idx, size):
            U = np.zeros((T, q)); u = np.zeros(q); u[idx] = size
            U[0] = L @ u
            return P.path(U, T, order=o) - ss

        def judge(kw, idx, size):
            r = md.impulse_response(periods=T, **kw)
            got = np.asarray(r.impulse, dtype=float)
            if not mon.equal('shape of the response', (got.shape, r.periods), ((T, n), T)): return got
            mon.close('first row is zero', got[0], np.zeros(n), 1e-11, what=str(kw))
            w = want(idx, size)
            k = next((t for t in range(T) if not np.isfinite(w[t]).all() or np.abs(w[t]).max() > 1e6), T)
            mon.close('the response is that of the policy to the named shock alone', got[:k], w[:k], 1e-8, what=str(kw))
            return got
        size = float(np.round(rng.uniform(.1, 2)*rng.choice([1, -1]), 2))
        base = judge({}, [0], 1)
        j = int(rng.integers(q))
        judge(dict(exog=spec['stoch'][j]), [j], 1)
        judge(dict(exog=spec['stoch'][j], size=size), [j], size)
        judge(dict(size=3), [0], 3)
        several = [int(k) for k in rng.permutation(q)[:int(rng.integers(1, q+1))]]
        both = judge(dict(exog=[spec['stoch'][k] for k in several], size=size), several, size)
        again = judge({}, [0], 1)
        mon.true('the same request gives the same response', np.array_equal(again, base, equal_nan=True), lambda: short_diff(again, base))
        if o == 1:
            one = [np.asarray(md.impulse_response(spec['stoch'][k], T, size).impulse) for k in several]
            mon.close('responses to several shocks add up', both, sum(one), 1e-9)
            two = np.asarray(md.impulse_response(spec['stoch'][j], T, 2*size).impulse)
            mon.close('responses are linear in the size', two, 2*np.asarray(md.impulse_response(spec['stoch'][j], T, size).impulse), 1e-9)
            if T > 1:
                x = P.H @ (L[:, 0])
                for t in range(1, T):
                    mon.close('powers of the state transition', base[t], x, 1e-9, what=f'row {t}')
                    x = P.G @ x
        mon.raises('unknown shocks are refused', lambda: md.impulse_response('no_such_shock', T), what='no_such_shock')
        mon.raises('unknown shocks are refused', lambda: md.impulse_response(spec['endog'][0], T), what='a variable that is not a shock')
        tally_model(mon, spec); mon.tally(f'order:{o}', f'together:{len(several)}')
        if T > 1: mon.seen(shape_key(spec), o, T, len(several), spec['nonlinear'])


class C15(Check):
    prop = 'C15'
    rule = ('simulations of random models, and recorded paths with chosen features (constant series, trends, one variable, few periods); correlations and '
            'autocorrelations recomputed from the recorded paths; distinct by structure, length, lags and dropped periods')
    assumptions = ['series that do not vary have no correlation (not a number is accepted there)',
                   'autocovariances at lag k divide by the number of pairs, as the package does']
    sizes = dict(quick=700, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, order=1, periods=T, seed=j) for j, s in enumerate(structured('C15', False)) for T in (5, 60) if usable(s, True)]

    def gen(self, rng, i, tier):
        o = int(rng.integers(1, 3))
        spec = pick_model(rng, nonlinear=bool(rng.random() < .3), n=int(rng.integers(1, 7)), start=.2)
        if spec is None or not usable(spec, o == 1): return None
        return dict(spec=spec, order=o, periods=int(rng.choice([2, 3, 7, 25, 80, 200])), seed=int(rng.integers(1 << 30)))

    def run(self, case, mon):
        spec, md, sol, ss, P, S = prepared(case, mon)
        rng = rng_for('C15run', case['seed'])
        T, n, q = case['periods'], len(ss), len(spec['stoch'])
        U = np.round(rng.normal(size=(T, q))*.2, 3)
        try: sim = md.simulate(U, order=case['order'])
        except Exception as err: raise Skip('not simulated')
        paths = np.array(sim.paths, dtype=float)
        if paths.shape != (T, n) or not np.isfinite(paths).all() or np.abs(paths).max() > 1e6: raise Skip('paths are not usable')
        drops = sorted({0, int(rng.integers(0, T)), T - 1})
        for drop in drops:
            Y = paths[drop:]
            kw = dict(drop=drop) if drop or rng.random() < .5 else {}
            c = sim.corr(**kw)
            N = len(Y)
            mean = Y.sum(0)/N
            D = Y - mean
            var = (D*D).sum(0)/N
            # rounding in series that hardly vary says nothing
            live = np.sqrt(var) > 1e-7*np.maximum(1e-3, np.abs(Y).max(0))
            mon.equal('correlations are labelled', (list(c.index), list(c.columns)), (spec['endog'], spec['endog']))
            got = c.to_numpy(dtype=float)
            if mon.equal('correlations: shape', got.shape, (n, n)):
                want = (D.T @ D/N)[np.ix_(live, live)]/np.sqrt(np.outer(var[live], var[live]))
                g = got[np.ix_(live, live)]
                mon.close('correlations are those of the recorded paths', g, want, 1e-6, what=f'drop={drop}')
                if live.any():
                    mon.close('correlations are symmetric', g, g.T, 1e-9)
                    mon.close('correlations have a unit diagonal', np.diag(g), np.ones(int(live.sum())), 1e-9)
                    mon.true('correlations are within [-1, 1]', np.abs(g).max() <= 1 + 1e-9, lambda: str(g))
            if N < 2: continue
            p = int(rng.integers(1, min(N, 8)))
            if N > 6 and rng.random() < .3: p = None
            kw = dict(kw, p=p) if p is not None else kw
            a = sim.autocorr(**kw)
            k = 5 if p is None else p
            g = a.to_numpy(dtype=float)
            mon.equal('autocorrelations are labelled by variable', list(a.index), spec['endog'])
            mon.equal('autocorrelations are labelled by lag', [int(str(x).split('_')[-1]) for x in a.columns], list(range(1, k+1)))
            if mon.equal('autocorrelations: shape', g.shape, (n, k)):
                for j in range(1, k+1):
                    w = np.array([sum(D[t, i]*D[t-j, i] for t in range(j, N))/(N-j)/var[i] if live[i] else np.nan for i in range(n)])
                    mon.close('autocorrelations are those of the recorded paths', g[live, j-1], w[live], 1e-6, what=f'lag {j} drop={drop}')
            mon.raises('too many lags are refused', lambda: sim.autocorr(p=N, drop=drop), ValueError, f'p={N} of {N} periods')
            mon.raises('too many lags are refused', lambda: sim.autocorr(p=N+3, drop=drop), ValueError, f'p={N+3} of {N} periods')
            mon.seen(shape_key(spec), T, drop, k)
        for th, w in ((lambda: sim.corr(drop=-1), 'corr(drop=-1)'), (lambda: sim.autocorr(p=1, drop=-2), 'autocorr(drop=-2)'),
                      (lambda: sim.corr(drop=T), 'corr(drop=all)'), (lambda: sim.autocorr(p=1, drop=T+1), 'autocorr(drop=more than all)'),
                      (lambda: sim.autocorr(p=1, drop=T-1), 'autocorr of one period')):
            mon.raises('dropping a negative number of periods or all of them is refused', th, ValueError, w)
        mon.true('statistics leave the recorded paths alone', np.array_equal(sim.paths, paths), 'the recorded paths were changed')
        tally_model(mon, spec)


class C16(Check):
    prop = 'C16'
    rule = ('random and structure-covering models solved at order 1, 2, both, or not at all before the request; moments recomputed from the reported '
            'policy by summing the contributions of past shocks; distinct by structure, order and largest root')
    assumptions = ASSUME + ['variables with zero variance have no correlations (not judged)']
    sizes = dict(quick=700, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, order=o, how=o) for nl in (False, True) for s in structured('C16', nl) for o in (1, 2) if usable(s)]

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=bool(rng.random() < .4), regime=['contraction', 'general'][i % 2], start=.2)
        if spec is None or not usable(spec): return None
        return dict(spec=spec, order=int(rng.integers(1, 3)), how=int(rng.integers(0, 4)), route=['kwargs', 'file'][i % 2], p=int(rng.integers(1, 9)))

    def run(self, case, mon):
        spec = case['spec']
        md = quiet_build(spec, case.get('route', 'kwargs'))
        how = case['how']                  # 0: nothing solved before; 1, 2: solved at that order; 3: one after the other
        try:
            if how in (1, 2): md.solve(order=how)
            elif how == 3: md.solve(order=1); md.stats.cov(); md.solve(order=2)
        except Exception as err: raise Skip('not solved')
        st = md.stats
        V = np.asarray(st.cov(), dtype=float)
        ss = near_ss(md, spec)
        P = oracle.Policy(spec, md.solution, ss, len(spec['stoch']))
        S = gen.sigma_of(spec)
        n = len(ss)
        p = case.get('p', 5)
        # sum of the contributions of all past shocks
        want, ac = oracle.moments(P.G, P.H, S, p)
        sc = max(1e-12, np.abs(want).max())
        mon.close('covariance is the sum of all past contributions', V, want, 1e-7, sc)
        if V.shape != (n, n): return
        mon.close('covariance is symmetric', V, V.T, 1e-10, sc)
        ev = np.linalg.eigvalsh((V + V.T)/2)
        mon.true('covariance is positive semidefinite', ev[0] > -1e-8*max(1e-12, abs(ev[-1])), lambda: f'eigenvalues {ev}')
        mon.close('variances are the diagonal', st.var(), np.diag(want), 1e-7, sc)
        live = np.diag(want) > 1e-10*sc
        mon.close('standard deviations are their roots', np.asarray(st.std())[live], np.sqrt(np.diag(want))[live], 1e-5, math.sqrt(sc))
        sd = np.sqrt(np.diag(want)[live])
        C = np.asarray(st.corr(), dtype=float)
        rs = np.outer(sd, sd)
        tol = 1e-6*max(1, sc/max(1e-300, rs.min() if rs.size else 1)*1e-3)
        if mon.equal('correlation: shape', C.shape, (n, n)):
            mon.close('correlations agree with the covariance', C[np.ix_(live, live)], want[np.ix_(live, live)]/rs, tol)
        A = np.asarray(st.autocov(p=p), dtype=float)
        R = np.asarray(st.autocorr(p=p), dtype=float)
        if mon.equal('autocovariance: shape', (A.shape, R.shape), ((p, n, n), (p, n, n))):
            for k in range(p):
                mon.close('k-th autocovariance is that with the values k periods earlier', A[k], ac[k], 1e-7, sc, f'k = {k+1}')
                mon.close('k-th autocorrelation agrees', R[k][np.ix_(live, live)], ac[k][np.ix_(live, live)]/rs, tol, what=f'k = {k+1}')
        mon.equal('five lags by default', np.shape(st.autocov())[0], 5)
        # the functions of the package and the interface of the model agree
        import pynare.stats as pst
        mon.close('module functions agree', pst.cov(md), V, 1e-12, sc)
        # the state block
        T = P.T
        if T.states:
            X = np.asarray(md.statespace.sigma, dtype=float)
            mon.close('covariance of the states', X.reshape(len(T.states), -1), want[np.ix_(T.states, T.states)], 1e-7, sc)
        tally_model(mon, spec); mon.tally(f'solved:{["no", "order 1", "order 2", "both"][how]}')
        mon.seen(shape_key(spec), how, spec['nonlinear'], round(float(np.abs(np.linalg.eigvals(P.G)).max()), 1))


class C17(Check):
    prop = 'C17'
    rule = ('random and structure-covering models with 1-5 shocks, independent or correlated; shares recomputed shock by shock from the reported policy; '
            'all or named variables and shocks in random order; distinct by structure, order, correlation and kind of request')
    assumptions = ASSUME + ['variables with (nearly) zero variance have no shares (not judged)',
                            'the package adds 1e-12 to the variances before factoring; shares are compared to 1e-6 plus what that can change']
    sizes = dict(quick=700, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, order=o, seed=j) for nl in (False, True) for j, s in enumerate(structured('C17', nl)) for o in (1, 2) if usable(s)]

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=bool(rng.random() < .3), regime=['contraction', 'general'][i % 2], ns=int(rng.choice([1, 2, 2, 3, 3, 4, 5])), start=.2)
        if spec is None or not usable(spec): return None
        return dict(spec=spec, order=int(rng.integers(0, 3)), seed=int(rng.integers(1 << 30)), route=['kwargs', 'file'][i % 2])

    def run(self, case, mon):
        spec = case['spec']
        rng = rng_for('C17run', case['seed'])
        md = quiet_build(spec, case.get('route', 'kwargs'))
        if case['order']: quiet_solve(md, case['order'])
        st = md.stats
        D = np.asarray(st.var_decomp(), dtype=float)
        if not case['order']: quiet_solve(md, 1)
        ss = near_ss(md, spec)
        q, n = len(spec['stoch']), len(ss)
        P = oracle.Policy(spec, md.solution, ss, q)
        S = gen.sigma_of(spec)
        L = np.linalg.cholesky(S)
        parts = np.array([np.diag(oracle.lyapunov(P.G, np.outer(P.H @ L[:, j], P.H @ L[:, j]))) for j in range(q)]).T
        tot = parts.sum(1)
        live = tot > 1e-6*max(1e-9, tot.max())
        want = parts[live]/tot[live][:, None]
        tol = 1e-6 + 3e-12/np.linalg.eigvalsh(S)[0]
        if not mon.equal('shape', D.shape, (n, q)): return
        mon.close('shares are those of each orthogonalised shock', D[live], want, tol)
        mon.true('shares are between 0 and 1', (D[live] > -1e-9).all() and (D[live] < 1 + 1e-9).all(), lambda: str(D))
        mon.close('shares add to one', D[live].sum(1), np.ones(int(live.sum())), 1e-8)
        # by name, in the order of the request
        full = np.full((n, q), np.nan); full[live] = want
        for _ in range(4):
            ei = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n+1))]]
            si = [int(x) for x in rng.permutation(q)[:int(rng.integers(1, q+1))]]
            m = int(rng.integers(3))
            kw, w = {}, full
            if m != 1:
                kw['endog'] = [spec['endog'][x] for x in ei]; w = w[ei]
                if len(ei) == 1 and rng.random() < .5: kw['endog'] = kw['endog'][0]
            if m != 0:
                kw['stoch'] = [spec['stoch'][x] for x in si]; w = w[:, si]
                if len(si) == 1 and rng.random() < .5: kw['stoch'] = kw['stoch'][0]
            g = np.asarray(st.var_decomp(**kw), dtype=float)
            if mon.equal('shape of the selection', g.shape, w.shape):
                ok = ~np.isnan(w)
                mon.close('the selection has the requested rows and columns', g[ok], w[ok], tol, what=str(kw))
            mon.tally('request:' + '+'.join(sorted(kw)))
        for kw in (dict(endog=['no_such_name']), dict(stoch=['no_such_name']), dict(endog=[spec['endog'][0], 'nope']),
                   dict(endog=spec['endog'][0], stoch=[spec['endog'][0]]), dict(endog=[spec['stoch'][0]])):
            mon.raises('unknown names are refused', lambda: st.var_decomp(**kw), what=str(kw))
        again = np.asarray(st.var_decomp(), dtype=float)
        mon.true('asking again gives the same', np.array_equal(again, D, equal_nan=True) or np.allclose(again[live], D[live], 1e-12), 'differs')
        tally_model(mon, spec)
        mon.seen(shape_key(spec), case['order'], bool(np.abs(S - np.diag(np.diag(S))).max() > 0))


class C18(Check):
    prop = 'C18'
    rule = ('random and structure-covering nonlinear and linear models solved at order 1 and 2; means recomputed from the reported policy and, for part of the '
            'models, compared with antithetic simulated averages; distinct by structure, order and size of the correction')
    assumptions = ASSUME + ['simulated averages use small shocks and 8 standard errors']
    sizes = dict(quick=600, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, order=o, mc=(nl and o == 2 and j % 6 == 0), seed=j) for nl in (True, False) for j, s in enumerate(structured('C18', nl)) for o in (1, 2) if usable(s)]

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=i % 6 != 0, regime=['contraction', 'general'][i % 2], start=.2)
        if spec is None or not usable(spec): return None
        return dict(spec=spec, order=[2, 2, 1, 0][i % 4], mc=i % 12 == 4, seed=int(rng.integers(1 << 30)), route=['kwargs', 'file'][i % 2])

    def run(self, case, mon):
        spec = case['spec']
        md = quiet_build(spec, case.get('route', 'kwargs'))
        if case['order']: quiet_solve(md, case['order'])
        m = np.asarray(md.stats.mean(), dtype=float)
        ss = near_ss(md, spec)
        sol = md.solution
        if not case['order']:
            # asked of a model that was not solved: as after solving it without further arguments
            fresh = quiet_build(spec, case.get('route', 'kwargs'))
            try: fresh.solve()
            except Exception as err: raise Skip(f'model could not be solved: {type(err).__name__}')
            mon.close('means of a model not solved before are those of the default solution', m, fresh.stats.mean(), 1e-9)
        P = oracle.Policy(spec, sol, ss, len(spec['stoch']))
        S = gen.sigma_of(spec)
        if sol.order == 1:
            mon.close('first-order means are the steady state', m, ss, 1e-9)
            size = 0
        else:
            V, _ = oracle.moments(P.G, P.H, S, 1)
            second = P.del2 + np.einsum('ijk,jk->i', P.xx, V) + np.einsum('ijk,jk->i', P.uu, S)
            adj = np.linalg.solve(np.eye(len(ss)) - P.G, second)
            mon.close('second-order means include exactly the risk correction', m - ss, adj, 1e-7)
            size = np.abs(adj).max()
            if not spec['nonlinear']: mon.close('means of a linear model are the steady state', m, ss, 1e-8)
            if case['mc'] and P.k and np.abs(np.linalg.eigvals(P.G)).max() < .9: self.average(spec, md, sol, ss, P, S, m, adj, case, mon)
        tally_model(mon, spec); mon.tally(f'order:{sol.order}')
        mon.seen(shape_key(spec), sol.order, f'{size:.0e}', spec['nonlinear'])

    def average(self, spec, md, sol, ss, P, S, m, adj, case, mon):
        """scale the shocks down so that the second-order process stays near its pruned version, and average"""
        from pynare import Model
        eps = 1e-3/max(1e-6, math.sqrt(np.abs(oracle.moments(P.G, P.H, S, 1)[0]).max()))
        if eps > 1: eps = 1.
        sh = {s: dict(variance=float(eps**2*S[i, i])) for i, s in enumerate(spec['stoch'])}
        for st in spec['shocks']:
            if st[0] in ('corr', 'cov'):
                i, j = spec['stoch'].index(st[1]), spec['stoch'].index(st[2])
                sh[st[1]].update(other=st[2], cov=float(eps**2*S[i, j]))
        kw = gen.kwargs_of(spec); kw['shocks'] = sh
        md2 = Model(**kw)
        md2.solve(order=2)
        m2 = np.asarray(md2.stats.mean(), dtype=float) - ss
        rng = rng_for('C18mc', case['seed'])
        T, B = 1240, 30
        U = rng.normal(size=(T, len(spec['stoch'])))
        a, b = md2.simulate(U, order=2).paths, md2.simulate(-U, order=2).paths
        z = ((a + b)/2 - ss)[40:]
        bm = z.reshape(B, -1, z.shape[1]).mean(1)
        se = bm.std(0, ddof=1)/math.sqrt(B)
        avg = z.mean(0)
        ok = np.abs(avg - m2) < 8*se + .02*np.abs(m2) + 1e-3*np.abs(m2).max() + 1e-12
        mon.true('means agree with simulated averages', ok.all(), lambda: f'mean correction {m2}, simulated {avg}, standard errors {se}')
        mon.tally('simulated averages')


CHECKS = [C13, C14, C15, C16, C17, C18]
