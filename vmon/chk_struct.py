"""C06-C09: timing analysis, invariance, steady state, derivatives"""
import math
import numpy as np
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, rng_for
from vmon.common import *
from vmon.chk_solve import structured, STRUCTURES


def random_expr(rng, leaves, depth, funcs=ex.FUNCS1, smooth=False):
    """a random expression over the given leaves"""
    if depth == 0 or rng.random() < .15:
        return leaves[rng.integers(len(leaves))] if rng.random() < .8 else ex.n(float(np.round(rng.uniform(.1, 3), 2)))
    k = rng.integers(8)
    a = random_expr(rng, leaves, depth - 1, funcs, smooth)
    if k == 0: return ex.neg(a) if rng.random() < .8 else ['pos', a]
    if k in (1, 2): return ex.f(funcs[rng.integers(len(funcs))], a)
    if k == 3:
        b = ex.n(float(rng.choice([2, 3, .5, 1.5, -1, 1, 0, -.5, 2.3]))) if rng.random() < .7 else random_expr(rng, leaves, max(0, depth - 2), funcs, smooth)
        if b[0] == 'n' and float(b[1] or 0) < 0: b = ex.neg(ex.n(-float(b[1])))
        return ex.pw(a, b)
    b = random_expr(rng, leaves, depth - 1, funcs, smooth)
    return [['+', '-', '*', '/'][k - 4], a, b]


class C06(Check):
    prop = 'C06'
    rule = ('models over all patterns of appearance of 1-9 variables: random structures, plus variables made to appear at further periods inside nested '
            'expressions of value zero; classification recomputed from the equations; distinct by the pattern of appearance of every variable')
    assumptions = ['every variable appears in the current period, at least one is dynamic, the static block has full rank (others are refused when the model is built)']
    sizes = dict(quick=900, thorough=40000)

    def fixed(self, tier):
        return [dict(spec=s, route=r) for s in structured('C06', False, start=False) for r in ('kwargs', 'file')]

    def gen(self, rng, i, tier):
        n = int(rng.integers(1, 10))
        cl = [int(c) for c in rng.integers(0, 4, n)]
        if not any(cl): cl[int(rng.integers(n))] = int(rng.integers(1, 4))
        spec = gen.gen_model(rng, n=n, classes=cl, nonlinear=bool(rng.random() < .3), regime=['general', 'contraction'][i % 2])
        for _ in range(int(rng.integers(0, 4))):
            j = int(rng.integers(n))
            y = spec['endog'][int(rng.integers(n))]
            x = ex.v(y, int(rng.choice([-1, 0, 0, 1])))
            other = ex.v(spec['endog'][j], 0)
            term = [x, ex.f('exp', x), ex.mul(other, x), ex.pw(x, ex.n(2)), ex.f('sin', ex.neg(ex.mul(x, other))), ex.f('cos', ex.f('exp', ['pos', x])),
                    ex.pw(ex.n(2), x), ex.div(x, ex.n(3)), ex.div(ex.n(1), ex.f('exp', x))][int(rng.integers(9))]
            q = spec['eqs'][j]
            add = ex.mul(ex.n(0), term)
            if q[0] == '=' and rng.random() < .4: spec['eqs'][j] = ['=', ex.add(add, q[1]), q[2]]
            else: spec['eqs'][j] = ['=', q[1], ex.add(q[2], add)] if q[0] == '=' else ex.sub(q, add)
        for j in range(n):
            # the same equation, put differently
            if rng.random() < .35:
                q = spec['eqs'][j]
                l, r = (q[1], q[2]) if q[0] == '=' else (q, ex.n(0))
                spec['eqs'][j] = [['=', ex.neg(l), ex.neg(r)], ['=', ex.neg(r), ex.neg(l)], ['=', r, l], ['=', ex.sub(l, r), ex.n(0)], ['=', ex.n(0), ex.sub(r, l)],
                                  ['=', ['pos', l], ['pos', r]], ex.sub(l, r), ex.neg(ex.sub(r, l)), ['=', ex.neg(ex.sub(l, r)), ex.n(0)],
                                  ['=', ex.mul(l, ex.n(2)), ex.mul(ex.n(2), r)], ['=', ex.div(l, ex.n(2)), ex.div(r, ex.n(2))]][int(rng.integers(11))]
        if not oracle.classes_ok(spec): return None
        return dict(spec=spec, route=['kwargs', 'file'][rng.integers(2)])

    def run(self, case, mon):
        spec = case['spec']
        try:
            md = gen.build(spec, case['route'])
        except Exception as err:
            T = oracle.Timing(spec['endog'], spec['eqs'])
            try: d, fo = oracle.analyse(spec)
            except oracle.Unfit: raise Skip('not differentiable')
            # refused legitimately when the static block is rank-deficient; that cannot happen when the model is determinate
            if fo.determinate: raise
            raise Skip('refused when built')
        T = oracle.Timing(spec['endog'], spec['eqs'])
        judge_timing(md, spec, T, mon)
        tally_model(mon, spec)
        mon.seen(tuple(zip(T.lag, T.cur, T.lead)))


def judge_timing(md, spec, T, mon):
    ix = md.indexes
    L = lambda a: [int(x) for x in np.asarray(a).ravel()]
    n = len(T.endog)
    mon.equal('variables are in declaration order', list(md.endog.names), T.endog)
    groups = dict(static=T.static, pure_backward=T.back, mixed=T.mixed, pure_forward=T.fwd, state=T.states_dc, forward=T.forward_dc, backward=T.states_dc,
                  dynamic=sorted(T.back + T.mixed + T.fwd))
    for g, w in groups.items():
        mon.equal('members of the group ' + g, L(getattr(ix, g)), w)
    for g, w in (('static_vars', T.static), ('pure_backward_vars', T.back), ('mixed_vars', T.mixed), ('pure_forward_vars', T.fwd),
                 ('state_vars', T.states_dc), ('forward_vars', T.forward_dc), ('backward_vars', T.states_dc)):
        mon.equal('names of the group ' + g, [str(x.name) for x in getattr(md, g)], [T.endog[i] for i in w])
    for g, w in (('n_static', T.static), ('n_forward', T.forward_dc), ('n_backward', T.states_dc), ('n_mixed', T.mixed), ('n_state', T.states_dc)):
        mon.equal('count ' + g, int(getattr(ix, g)), len(w))
    mon.equal('count n_dynamic', int(ix.n_dynamic), n - len(T.static))
    mon.equal('count n_endog', int(ix.n_endog), n)
    mon.equal('count n_exog', int(ix.n_exog), len(spec['stoch']))
    mon.equal('decision-rule order', L(ix.dr_order), T.dr)
    inv = [0]*n
    for k, i in enumerate(T.dr): inv[i] = k
    mon.equal('way back to declaration order', L(ix.dc_order), inv)
    # incidence table: consecutive numbers for (t-1, t, t+1) in declaration order, nothing where a variable does not appear
    want, c = np.full((3, n), np.nan), 0
    for r, inc in enumerate((T.lag, T.cur, T.lead)):
        for j in range(n):
            if inc[j]: want[r, j] = c; c += 1
    mon.close('incidence table', ix.llx, want, 0)
    mon.equal('lead and lag incidence by name', {k: tuple(int(t) for t in v) for k, v in ix.lead_lags.items()},
              {y: tuple(t for t, inc in ((-1, T.lag), (0, T.cur), (1, T.lead)) if inc[j]) for j, y in enumerate(T.endog)})
    # positions of the groups within the decision-rule order
    dr = ix.dr
    lo = 0
    for g, w in (('static', T.static), ('pure_backward', T.back), ('mixed', T.mixed), ('pure_forward', T.fwd)):
        mon.equal('position of the group ' + g + ' in decision-rule order', L(getattr(dr, g)), list(range(lo, lo + len(w)))); lo += len(w)
    mon.equal('positions of the states in decision-rule order', L(dr.state), [k for k, i in enumerate(T.dr) if T.lag[i]])
    mon.equal('shocks are the last columns', L(ix.exogenous_jacobian), list(range(c, c + len(spec['stoch']))))


class C07(Check):
    prop = 'C07'
    rule = ('pairs of models: a random determinate one and its image under renaming, permuting declarations or equations, swapping sides, scaling equations '
            'and spelling; everything reported is compared after undoing the permutation; distinct by structure and transformations applied')
    assumptions = ['models are comfortably determinate; searches for the steady state start at it',
                   'with correlated shocks the responses to single shocks depend on the declaration order (Cholesky factor); they are compared for uncorrelated shocks or unpermuted declarations']
    sizes = dict(quick=350, thorough=12000)

    def fixed(self, tier):
        return [dict(spec=s, what=['rename', 'endog', 'stoch', 'eqs', 'swap', 'scale', 'spell'], seed=j) for nl in (False, True) for j, s in enumerate(structured('C07', nl, start=False))]

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=bool(rng.random() < .6), regime=['contraction', 'general'][i % 2])
        if spec is None: return None
        all_ = ['rename', 'endog', 'stoch', 'eqs', 'swap', 'scale', 'spell']
        what = [all_[i % 7]] if rng.random() < .5 else [w for w in all_ if rng.random() < .5] or ['eqs']
        return dict(spec=spec, what=what, seed=int(rng.integers(1 << 30)))

    @staticmethod
    def transform(spec, what, rng):
        n, q = len(spec['endog']), len(spec['stoch'])
        pe, ps = np.arange(n), np.arange(q)
        new = dict(spec)
        eqs = list(spec['eqs'])
        if 'swap' in what:
            eqs = [(['=', e[2], e[1]] if e[0] == '=' else ['=', ex.n(0), e]) if rng.random() < .7 else e for e in eqs]
        if 'scale' in what:
            def sc(e):
                c = float(rng.choice([-1, 2, .5, -3, 10, .1]))
                c = ex.n(c) if c >= 0 else ex.neg(ex.n(-c))
                if e[0] == '=': return ['=', ex.mul(c, e[1]), ex.mul(e[2], c)] if rng.random() < .5 else ex.mul(c, ex.sub(e[1], e[2]))
                return ex.mul(c, e)
            eqs = [sc(e) if rng.random() < .7 else e for e in eqs]
        if 'spell' in what:
            def sp(x):
                if x[0] == 'v' and x[2] == 0 and rng.random() < .3: return ['v', x[1], '0']
                if x[0] == 'n' and rng.random() < .2: return ['pos', x]
                return [x[0]] + [sp(c) if isinstance(c, list) else c for c in x[1:]]
            eqs = [sp(e) for e in eqs]
        if 'eqs' in what: eqs = [eqs[i] for i in rng.permutation(len(eqs))]
        new['eqs'] = eqs
        if 'endog' in what:
            pe = rng.permutation(n); new['endog'] = [spec['endog'][i] for i in pe]
        if 'stoch' in what:
            ps = rng.permutation(q); new['stoch'] = [spec['stoch'][i] for i in ps]
        if 'rename' in what:
            taken = set()
            old = list(new['endog']) + list(new['stoch']) + [k for k, _ in new['params']]
            pool = list(set(gen.NAMES + gen.SHOCKS + gen.PARAMS + ['a_very_long_name_indeed', 'Z', 'zz9', 'x_', 'x__', 'x_1_', 'l', 'O0']))
            pool.sort()
            # families of names that extend one another
            stem = str(rng.choice(['x', 'y', 'e', 'as']))
            fam = [stem + t for t in ('', '1', '11', '_', '_1', 'x', '_x', '1_', '10', '2')]
            nm = gen.names(rng, fam if rng.random() < .5 else pool, len(old), taken)
            m = dict(zip(old, [nm[i] for i in rng.permutation(len(nm))]))
            new['endog'] = [m[y] for y in new['endog']]
            new['stoch'] = [m[y] for y in new['stoch']]
            new['params'] = [[m[k], ex.rename(x, m)] for k, x in new['params']]
            new['eqs'] = [ex.rename(e, m) for e in new['eqs']]
            new['shocks'] = [[s[0]] + [m.get(t, t) if isinstance(t, str) else ex.rename(t, m) for t in s[1:]] for s in new['shocks']]
            new['ss'] = {m[k]: v for k, v in new['ss'].items()}
        return new, pe, ps

    def run(self, case, mon):
        spec = case['spec']
        rng = rng_for('C07run', case['seed'])
        new, pe, ps = self.transform(spec, case['what'], rng)
        a = quiet_build(spec)
        sa = quiet_solve(a, 2)
        b = gen.build(new, ['kwargs', 'file'][case['seed'] % 2])
        sb = b.solve(order=2)
        n, q = len(spec['endog']), len(spec['stoch'])
        for md, sp in ((a, spec), (b, new)):
            for arr, ns in ((md.endog, sp['endog']), (md.stoch, sp['stoch'])):
                o = [int(x) for x in rng.permutation(len(ns))]
                mon.equal('positions by name', [int(x) for x in arr.get_loc([ns[x] for x in o])] if o else [], o)
                mon.equal('position by name', [int(arr.get_loc(x)) for x in ns], list(range(len(ns))))
                mon.true('names are members', all(x in arr for x in ns) and not any(x in arr for x in (ns[0] + '_no', 'no_such', '') if x not in ns) if ns else True, 'differs')
        ssa, ssb = np.asarray(a.ss.values), np.asarray(b.ss.values)
        mon.close('steady state is the same', ssb, ssa[pe], 1e-6)
        PA, PB = oracle.Policy(spec, sa, ssa, q), oracle.Policy(new, sb, ssb, q)
        T = 1e-6*max(1, oracle.analyse(spec)[1].condM/100)
        ee, es, ss_ = np.ix_(pe, pe), np.ix_(pe, ps), np.ix_(ps, ps)
        mon.close('state responses are the same', PB.G, PA.G[ee], T)
        mon.close('shock responses are the same', PB.H, PA.H[es], T)
        mon.close('second-order state terms are the same', PB.xx, PA.xx[np.ix_(pe, pe, pe)], T*10)
        mon.close('second-order cross terms are the same', PB.xu, PA.xu[np.ix_(pe, pe, ps)], T*10)
        mon.close('second-order shock terms are the same', PB.uu, PA.uu[np.ix_(pe, ps, ps)], T*10)
        mon.close('uncertainty terms are the same', PB.del2, PA.del2[pe], T*10)
        if q:
            SA, SB = np.asarray(a.sigma, dtype=float), np.asarray(b.sigma, dtype=float)
            mon.close('covariance of the shocks is the same', SB, SA[ss_], 1e-12)
            ca = np.asarray(a.stats.cov())
            mon.close('covariances are the same', b.stats.cov(), ca[ee], T*10)
            mon.close('autocovariances are the same', b.stats.autocov(p=3), np.asarray(a.stats.autocov(p=3))[np.ix_(range(3), pe, pe)], T*10)
            mon.close('means are the same', b.stats.mean(), np.asarray(a.stats.mean())[pe], T*10)
            # paths under the same innovations
            W = np.round(rng.normal(size=(12, q))*.05, 4) @ np.linalg.cholesky(SA).T
            UA = np.linalg.solve(np.linalg.cholesky(SA), W.T).T
            UB = np.linalg.solve(np.linalg.cholesky(SB), W[:, ps].T).T
            pa, pb = a.simulate(UA).paths, b.simulate(UB).paths
            if np.isfinite(pa).all() and np.abs(pa).max() < 1e3:
                mon.close('simulated paths are the same', pb, pa[:, pe], T*100)
            corr = np.abs(SA - np.diag(np.diag(SA))).max(1) > 0
            some = [int(j) for j in rng.permutation(q)[:int(rng.integers(1, q + 1))]]
            if not ('stoch' in case['what'] and corr.any()):
                ia = a.impulse_response([spec['stoch'][j] for j in some], 6).impulse
                ib = b.impulse_response([new['stoch'][int(np.where(ps == j)[0][0])] for j in some], 6).impulse
                if np.isfinite(ia).all() and np.abs(ia).max() < 1e3: mon.close('impulse responses to several are the same', ib, ia[:, pe], T*100)
                # names in the order of `a`
                want = np.asarray(a.stats.var_decomp()) if q > 1 else None
                if q > 1 and np.isfinite(want).all() and np.linalg.eigvalsh(SA)[0] > 1e-6:
                    back = [int(np.where(pe == i)[0][0]) for i in range(n)]
                    got = b.stats.var_decomp(endog=[new['endog'][k] for k in back], stoch=[new['stoch'][int(np.where(ps == j)[0][0])] for j in range(q)])
                    live = np.diag(ca) > 1e-6*max(1e-9, np.diag(ca).max())
                    mon.close('shares of variance are the same', np.asarray(got)[live], want[live], 1e-5 + 1e-11/np.linalg.eigvalsh(SA)[0])
            for j in range(q):
                if corr[j] and 'stoch' in case['what']: continue
                k = int(np.where(ps == j)[0][0])
                ia = a.impulse_response(spec['stoch'][j], 10).impulse
                ib = b.impulse_response(new['stoch'][k], 10).impulse
                if np.isfinite(ia).all() and np.abs(ia).max() < 1e3:
                    mon.close('impulse responses are the same', ib, ia[:, pe], T*100)
        tally_model(mon, spec); mon.tally(*['by:' + w for w in case['what']])
        mon.seen(shape_key(spec), case['what'], spec['nonlinear'])


class C08(Check):
    prop = 'C08'
    rule = ('random models with a known regular steady state, searched from it, from 0.5-10% away, from far away and with no steady state at all; residuals '
            'recomputed independently at the reported values; distinct by structure, kind of start, method and outcome')
    assumptions = ['starts within 2% of a steady state whose Jacobian has condition below 1e4 count as near',
                   'accuracy of the optimiser: gradient of the sum of squares below 1e-4 (its default is 1e-5)']
    sizes = dict(quick=700, thorough=25000)

    def fixed(self, tier):
        return [dict(spec=s, start=k, seed=j) for nl in (False, True) for j, s in enumerate(structured('C08', nl, start=False)) for k in (0., .02)]

    def gen(self, rng, i, tier):
        if i % 8 == 7:
            # systems without a steady state, or with one far away
            spec = pick_model(rng, nonlinear=True, n=int(rng.integers(1, 5)))
            if spec is None: return None
            kind = ['none', 'far'][int(rng.integers(2))]
            if kind == 'none':
                j = int(rng.integers(len(spec['eqs'])))
                y = ex.v(spec['endog'][j])
                spec['eqs'][j] = ['=', ex.add(ex.pw(y, ex.n(2)), ex.n(1)), ex.mul(ex.n(.1), ex.v(spec['endog'][j], -1))]
            return dict(spec=spec, start=1.5 if kind == 'far' else .1, seed=int(rng.integers(1 << 30)), kind=kind)
        spec = pick_model(rng, nonlinear=i % 4 != 0)
        if spec is None: return None
        return dict(spec=spec, start=[0., .005, .02, .1][i % 4], seed=int(rng.integers(1 << 30)), method=['', '', 8, 'nelder-mead'][int(rng.integers(4))], route=['kwargs', 'file'][i % 2])

    def run(self, case, mon):
        spec = case['spec']
        rng = rng_for('C08run', case['seed'])
        ss0 = np.array([spec['ss'][y] for y in spec['endog']])
        start = ss0 + case['start']*np.maximum(.3, np.abs(ss0))*rng.uniform(-1, 1, len(ss0))
        if case['start'] >= 1: start = np.abs(start) + .05
        sp = dict(spec, ss=dict(zip(spec['endog'], [float(x) for x in start])))
        kind = case.get('kind', 'near' if case['start'] <= .02 else 'away')
        md = None
        try: md = gen.build(sp, case.get('route', 'kwargs'))
        except Exception as err:
            # searches can leave the set on which the equations are defined, unless they start at the steady state
            bounded = any(f in ex.show(e) for e in spec['eqs'] for f in ('log', 'ln', '^', '/', 'sqrt', 'asin', 'acos', 'tan'))
            if kind == 'near' and not (case['start'] > 0 and bounded and isinstance(err, (ValueError, ArithmeticError))): raise
            raise Skip('refused when built')
        mon.close('search starts at the given values', md.initial, start, 1e-12)
        ss = md.ss
        m = case.get('method', '')
        if m: ret = ss.compute(m)
        else: ret = ss.compute() if case['seed'] % 2 else None
        x, res = np.asarray(ss.values, dtype=float), ss.results
        if ret is not None: mon.true('what is computed is what is reported', np.array_equal(ret, x, equal_nan=True), 'returned values differ from the reported ones')
        if not mon.equal('one value for each variable', x.shape, ss0.shape): return
        mon.true('reported outcome belongs to the reported values', np.array_equal(np.asarray(res.x), x, equal_nan=True), 'results.x differs')
        vals = gen.param_values(sp)
        env = dict(vals)
        for y, v in zip(spec['endog'], x):
            for t in (-1, 0, 1): env[(y, t)] = float(v)
        for s in spec['stoch']: env[s] = 0.0
        try: r = np.array([ex.value(ex.residual(e), env) for e in spec['eqs']])
        except ex.Undefined: r = None
        if r is not None and np.isfinite(r).all():
            mon.close('reported objective is the sum of squared residuals', res.fun, r @ r, 1e-7, max(1e-9, r @ r), what=kind)
            if kind == 'near':
                d = oracle.Deriv(spec, x)
                sv = np.linalg.svd(d.Am + d.A0 + d.Ap, compute_uv=False)[-1]
                if m != 'nelder-mead':
                    # searches that do not converge say so, except at the steady state itself
                    if case['start'] == 0: mon.close('equations hold at the reported steady state', r, np.zeros_like(r), 1e-8, 1)
                    else: mon.close('equations hold at the reported steady state', r*sv, np.zeros_like(r), 1e-4, 1)
            # the model's own representation gives the same residuals
            mon.close('static equations evaluate to these residuals', md.steady_repr(x), r, 1e-9)
        elif r is None or not np.isfinite(r).all():
            mon.true('undefined equations are not reported as solved', not np.isfinite(res.fun) or res.fun > 1e-6, lambda: f'objective {res.fun} where equations are undefined')
        tally_model(mon, spec); mon.tally('start:' + kind, 'converged' if res.success else 'not converged', f'method:{m or "default"}')
        mon.seen(shape_key(spec), kind, case['start'], m, bool(res.success))


class C09(Check):
    prop = 'C09'
    rule = ('random models with randomly nested smooth terms of every supported function and operator added to their equations; Jacobian, Hessian and static '
            'Jacobian compared entry by entry with second-order forward-mode jets; distinct by structure and operators in the added terms')
    assumptions = ['points where an equation is not twice differentiable, or derivatives exceed 1e4, are not generated']
    sizes = dict(quick=600, thorough=20000)

    def fixed(self, tier):
        out = []
        for nl in (False, True):
            for j, s in enumerate(structured('C09', nl)): out.append(dict(spec=s, route=['kwargs', 'file'][j % 2]))
        return out

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=bool(rng.random() < .5), n=int(rng.integers(1, 6)), start=.3)
        if spec is None: return None
        used = []
        for _ in range(int(rng.integers(0, 5))):
            j = int(rng.integers(len(spec['eqs'])))
            leaves = [ex.v(y, t) for y, t in sorted(set().union(*[{(a, int(b)) for a, b in ex.dated(q)} for q in spec['eqs']]))]
            leaves = [leaves[k] for k in rng.permutation(len(leaves))[:3]]
            leaves += [ex.e(s) for s in spec['stoch'][:2]] + [ex.p(k) for k, _ in spec['params'][:2]]
            R = random_expr(rng, leaves, int(rng.integers(1, 4)))
            env = gen.param_values(spec)
            for y in spec['endog']:
                for t in (-1, 0, 1): env[(y, t)] = spec['ss'][y]
            for s in spec['stoch']: env[s] = 0.
            try:
                if not self.smooth(R, env): continue
                c = ex.value(R, env)
                m = 3*len(spec['endog']) + len(spec['stoch'])
                d = oracle.Deriv(dict(spec, eqs=[R]), [spec['ss'][y] for y in spec['endog']])
            except (ex.Undefined, oracle.Unfit, OverflowError): continue
            if abs(c) > 1e3 or np.abs(d.jac).max() > 1e2 or np.abs(d.hess).max() > 1e3: continue
            q = spec['eqs'][j]
            add = ex.sub(R, ex.n(c))
            spec['eqs'][j] = ['=', q[1], ex.add(q[2], add)] if q[0] == '=' else ex.add(q, add)
            used += [x[1] if x[0] == 'f' else x[0] for x in ex.walk(R) if x[0] not in 'nvep']
        try: d, fo = oracle.analyse(spec)
        except oracle.Unfit: return None
        if np.abs(d.f).max() > 1e-9 or not oracle.classes_ok(spec) or np.abs(d.jac).max() > 1e3: return None
        if np.linalg.cond(d.Am + d.A0 + d.Ap) > 1e4: return None
        return dict(spec=spec, route=['kwargs', 'file'][i % 2], used=sorted(set(used)))

    @staticmethod
    def smooth(R, env):
        """well inside the domain everywhere: no kinks, no zero bases under powers"""
        for x in ex.walk(R):
            if x[0] == 'f':
                a = ex.value(x[2], env)
                if x[1] in ('log', 'ln', 'log10', 'sqrt') and a < .05: return False
                if x[1] in ('abs', 'sign') and abs(a) < .05: return False
                if x[1] in ('asin', 'acos') and abs(a) > .9: return False
                if x[1] == 'tan' and abs(math.cos(a)) < .2: return False
            if x[0] == '^':
                a, b = ex.value(x[1], env), ex.value(x[2], env)
                if a < .05: return False
            if x[0] == '/' and abs(ex.value(x[2], env)) < .05: return False
        return True

    def run(self, case, mon):
        spec = case['spec']
        try: md = gen.build(spec, case['route'])
        except Exception as err:
            if type(err).__name__ == 'ModelIdentificationError': raise Skip('refused when built')
            raise
        ss = np.asarray(md.ss.values, dtype=float)
        try: d = oracle.Deriv(spec, ss)
        except oracle.Unfit as u: raise Skip(str(u))
        T = oracle.Timing(spec['endog'], spec['eqs'])
        n, q = d.n, d.q
        cols = [k*n + j for k, inc in enumerate((T.lag, T.cur, T.lead)) for j in range(n) if inc[j]] + [3*n + j for j in range(q)]
        J = np.asarray(md.jacobian.array, dtype=float)
        mon.close('Jacobian', J, d.jac[:, cols], 1e-8)
        Hs = np.asarray(md.hessian.array, dtype=float)
        N = len(cols)
        want = d.hess[np.ix_(range(len(d.hess)), cols, cols)]
        if mon.equal('shape of the Hessian', Hs.shape, (len(spec['eqs']), N*N)):
            H3 = Hs.reshape(-1, N, N)
            mon.close('Hessian', H3, want, 1e-7)
            mon.close('Hessian is symmetric', H3, np.transpose(H3, (0, 2, 1)), 1e-8)
            if not case.get('used') and not spec['nonlinear']: mon.true('Hessian of a linear model is zero', not Hs.any(), lambda: f'{np.abs(Hs).max()}')
        SJ = np.asarray(md.ss.jacobian.array, dtype=float)
        mon.close('static Jacobian', SJ, d.Am + d.A0 + d.Ap, 1e-8)
        tally_model(mon, spec); mon.tally(*['uses:' + u for u in case.get('used', [])])
        mon.seen(shape_key(spec), case.get('used'), spec['nonlinear'])


CHECKS = [C06, C07, C08, C09]
