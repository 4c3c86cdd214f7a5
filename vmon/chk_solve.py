"""C10, C11, C12, C25: solutions and the routines they rest on"""
import numpy as np
import scipy.linalg as sl
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, rng_for
from vmon.common import *

# structures every run covers: (classes of the variables: 0 static, 1 backward, 2 mixed, 3 forward; shocks)
STRUCTURES = [([1], 1), ([1], 2), ([2], 1), ([2], 3), ([3], 1), ([3], 2), ([1, 0], 1), ([2, 0], 1), ([3, 0], 1), ([3, 0, 0], 2),
              ([1, 3], 1), ([3, 1], 1), ([0, 1], 2), ([1, 1], 1), ([2, 2], 1), ([3, 3], 1), ([3, 3], 2), ([0, 1, 2, 3], 2), ([3, 2, 1, 0], 2),
              ([2, 3], 1), ([3, 2], 1), ([2, 1], 2), ([1, 2], 1), ([0, 0, 1], 1), ([0, 2, 0, 2], 2), ([1, 3, 1, 3], 1),
              ([2, 1, 2, 1], 3), ([3, 1, 3, 2, 0], 2), ([1, 1, 1], 0), ([1, 2, 0], 0), ([1, 3], 0), ([2], 0), ([0, 3, 2, 0, 1, 1, 2], 4),
              ([2, 2, 2, 2], 4), ([1, 1, 1, 1, 1, 1], 2), ([3, 3, 3, 1], 1), ([0, 0, 0, 2, 1], 5)]


def structured(prop, nonlinear, repeat=1, start=True, **kw):
    out = []
    for r in range(repeat):
        for j, (cl, ns) in enumerate(STRUCTURES):
            rng = rng_for('structure', prop, j, nonlinear, r)
            def want(s, d, f):
                k = shape_key(s)
                return k[:4] == tuple(cl.count(c) for c in range(4))
            spec = pick_model(rng, n=len(cl), ns=ns, classes=cl, nonlinear=nonlinear, want=want, **kw)
            if spec is None: continue
            # every third starts off its steady state
            if start and (j + r) % 3 == 2: off_start(spec, rng)
            out.append(spec)
    # models as economists write them
    out += [s for s in textbook(start) if s['nonlinear'] == nonlinear and (len(s['endog']) < (10 if prop == 'C14' else 15) or prop in ('C10', 'C12', 'C16'))]
    return out


class C10(Check):
    prop = 'C10'
    rule = ('random and structure-covering linear and nonlinear models (every mix of static, backward, mixed, forward variables; '
            '0-5 shocks; keyword and file route) that an independent companion-pencil oracle finds comfortably determinate; a case is '
            'non-trivial when the reported policy was substituted into independently differentiated equations; distinct by '
            'structure (class counts, shocks, linearity) and rounded largest root')
    assumptions = ['models whose roots are within 2% of the unit circle or whose solution is ill-conditioned are not generated',
                   'every variable appears in the current period']
    sizes = dict(quick=700, thorough=30000)

    def fixed(self, tier):
        return [dict(spec=s, route=r, order=o) for nl in (False, True) for s in structured('C10', nl)
                for r, o in (('kwargs', 1), ('file', 2))]

    def gen(self, rng, i, tier):
        regime = ['contraction', 'general', 'contraction'][i % 3]
        n = int(rng.integers(5, 13)) if i % 11 == 0 else None
        spec = pick_model(rng, nonlinear=bool(rng.random() < .4), regime=regime, n=n, ns=None if i % 13 else 0, start=.2)
        if spec is None: return None
        return dict(spec=spec, route=['kwargs', 'file'][rng.integers(2)], order=int(rng.integers(1, 3)))

    def run(self, case, mon):
        spec = case['spec']
        md = gen.build(spec, case['route'])
        sol = md.solve(order=case['order'])
        if case['order'] == 2:
            sol = sol.lower_solution
        ss = np.asarray(md.ss.values, dtype=float)
        judge_first_order(spec, sol, ss, mon)


def judge_first_order(spec, sol, ss, mon):
    try:
        d, fo = oracle.analyse(spec, ss)
    except oracle.Unfit as u:
        raise Skip(str(u))
    if not fo.well(gap=.01): raise Skip('not comfortably determinate at the reported steady state')
    P = oracle.Policy(spec, sol, ss, len(spec['stoch']))
    G, H = P.G, P.H
    sc = max(1, np.abs(d.jac).max())*max(1, np.abs(G).max())**2
    mon.close('state response solves the linearised equations', d.Ap @ G @ G + d.A0 @ G + d.Am, np.zeros_like(G), 1e-8*sc, 1, 'A+ G G + A0 G + A-')
    sh = max(1, np.abs(d.jac).max())*max(1, np.abs(G).max())*max(1, np.abs(H).max(initial=0))
    mon.close('shock response solves the linearised equations', (d.Ap @ G + d.A0) @ H + d.C, np.zeros_like(H), 1e-8*sh, 1, '(A+ G + A0) H + C')
    r = np.abs(np.linalg.eigvals(G)).max() if len(G) else 0
    mon.true('transition is stable', r < 1, lambda: f'largest eigenvalue of the transition has modulus {r}')
    t = 1e-7*max(1, fo.condM/10)
    mon.close('state response is the unique stable one', G, fo.G, t, what='G')
    mon.close('shock response is the unique stable one', H, fo.H, t, what='H')
    tally_model(mon, spec)
    mon.seen(shape_key(spec), spec.get('nonlinear'), round(float(r), 2))


def block_spec(roots_back, roots_fwd, mix=None, ns=1, rng=None):
    """decoupled x = a x(-1) + e and y(+1) = b y + e blocks, optionally mixed by row operations"""
    nb, nf = len(roots_back), len(roots_fwd)
    n = nb + nf
    A0, Am, Ap = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
    for i, a in enumerate(roots_back): A0[i, i] = 1; Am[i, i] = -a
    for i, b in enumerate(roots_fwd): k = nb + i; A0[k, k] = -b; Ap[k, k] = 1
    C = np.zeros((n, 1)); C[:, 0] = -1
    if mix is not None:
        A0, Am, Ap, C = (np.round(mix @ M, 4) for M in (A0, Am, Ap, C))
    names = [f'x{i}' for i in range(nb)] + [f'y{i}' for i in range(nf)]
    eqs = []
    for i in range(n):
        ts = []
        for j in range(n):
            for t, M in ((0, A0), (-1, Am), (1, Ap)):
                if M[i, j]: ts.append(ex.mul(ex.n(float(M[i, j])), ex.v(names[j], t)))
        if C[i, 0]: ts.append(ex.mul(ex.n(float(C[i, 0])), ex.e('e')))
        eqs.append(ex.summed(ts))
    return dict(endog=names, stoch=['e'], params=[], locals=[], eqs=eqs, ss={y: 0.0 for y in names}, shocks=[], nonlinear=False)


class C11(Check):
    prop = 'C11'
    rule = ('random models with unrestricted roots plus block models with chosen stable and explosive roots (order failures both ways, '
            'rank failures by decoupled blocks), classified by an independent companion-pencil oracle away from the boundary; '
            'non-trivial when the verdict of the package was compared; distinct by structure, number of surplus roots and verdict')
    assumptions = ['models within 2% of the unit circle (0.05% where one simple root of a linear model is that close), singular pencils and ill-conditioned rank decisions '
                   'are not judged']
    sizes = dict(quick=900, thorough=30000)

    def fixed(self, tier):
        out = []
        for rb, rf in [((.5,), (2.,)), ((2.,), (2.,)), ((.5,), (.5,)), ((2.,), (.5,)), ((1.5, .3), (.2, 3.)), ((.9,), ()), ((1.1,), ()),
                       ((), (1.1,)), ((), (.9,)), ((-.5,), (-2.,)), ((-2.,), (.5,)), ((.5, 1.2), (3.,)), ((.2, .3), (.4, 2.)),
                       ((.8, .2), ()), ((1.4, .2), ()), ((1.4, .2), (.3,)), ((-1.4, .2, .3), (-.3, 2)), ((), (.3, 2.)), ((), (1.3, 2.))]:
            out.append(dict(spec=block_spec(rb, rf), route='kwargs', order=1))
            rng = rng_for('block', rb, rf)
            n = len(rb) + len(rf)
            if n > 1:
                mix = np.eye(n) + np.round(np.triu(rng.uniform(-.8, .8, (n, n)), 1), 2)
                out.append(dict(spec=block_spec(rb, rf, mix), route='file', order=2))
        for rb, rf, units in [((.999,), (2.,), ()), ((1.001,), (), ()), ((.3, .999), (2., 1.3), ()), ((.3, -.999), (2., -1.001), ()), ((.5,), (.999,), ()), ((.5, .2), (1.001,), ()),
                              ((), (1.001,), ()), ((.5, 1.0008), (3.,), ()), ((.5,), (2.,), (1000, .001)), ((.5,), (2.,), (.001, 1000)), ((.5, .8), (2., 1.4), (.001, 1, 1000, 30)),
                              ((.5, 1.2), (2., 1.4), (.001, 1, 1000, 30)), ((2.,), (.5,), (.001, 1000)), ((2.,), (.5,), (1000, .001))]:
            rng = rng_for('near', rb, rf)
            n = len(rb) + len(rf)
            for mix in (None, np.eye(n) + np.round(np.triu(rng.uniform(-.8, .8, (n, n)), 1), 2)):
                if mix is not None and (n == 1 or rb == (2.,)): continue
                out.append(dict(spec=block_spec(rb, rf, mix), route='kwargs', order=1, units=list(units) or None))
        for s in structured('C11', False, start=False): out.append(dict(spec=s, route='kwargs', order=1))
        return out

    def gen(self, rng, i, tier):
        units, eps = None, .02
        if i % 4 == 0:
            nb, nf = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            if nb + nf == 0: nb = 1
            root = lambda: float(np.round(rng.choice([rng.uniform(.05, .95), rng.uniform(1.05, 4)])*rng.choice([1, -1]), 3))
            mix = None
            if rng.random() < .6 and nb + nf > 1:
                mix = np.eye(nb+nf)
                for _ in range(nb + nf):
                    a, b = rng.choice(nb+nf, 2, replace=False)
                    mix[a] += np.round(rng.uniform(-.8, .8), 1)*mix[b]
            # keep the rank decision exact: distinct blocks, or none at all
            bs, fs = [root() for _ in range(nb)], [root() for _ in range(nf)]
            if i % 8 == 0 and rng.random() < .7:
                # one simple root close to the unit circle
                both = bs + fs
                both = [z if abs(abs(z) - 1) > .06 else .5*z for z in both]
                both[int(rng.integers(len(both)))] = float(rng.choice([1, -1]))*(1 + float(rng.choice([1, -1]))*float(rng.choice([.0008, .001, .003, .01])))
                bs, fs = both[:nb], both[nb:]
                eps = 5e-4
            spec = block_spec(bs, fs, mix)
        else:
            spec = gen.gen_model(rng, nonlinear=bool(rng.random() < .25), regime=['general', 'general', 'contraction'][i % 3],
                                 n=int(rng.integers(1, 6)))
            if i % 3 == 2 and rng.random() < .7:
                # turn a lag into a lead or the other way round
                y = spec['endog'][rng.integers(len(spec['endog']))]
                def flip(x):
                    if x[0] == 'v' and x[1] == y: return ['v', y, -x[2]]
                    return [x[0]] + [flip(c) if isinstance(c, list) else c for c in x[1:]]
                spec['eqs'] = [flip(q) for q in spec['eqs']]
        if not oracle.classes_ok(spec): return None
        try: d, fo = oracle.analyse(spec)
        except oracle.Unfit: return None
        if not oracle.regular_ss(d) or fo.singular or fo.gap < eps: return None
        if not spec.get('nonlinear') and rng.random() < .3:
            # variables in other units
            units = [float(rng.choice([1, 1, 1000, .001, 30, .02])) for _ in spec['endog']]
        if fo.n_stable == fo.n and not (fo.sv > 1e-3 and fo.condM < 1e5 if fo.rank_ok else fo.sv < 1e-12): return None
        return dict(spec=spec, route=['kwargs', 'file'][rng.integers(2)], order=int(rng.integers(1, 3)), eps=eps, units=units)

    @staticmethod
    def rescaled(spec, units):
        c = dict(zip(spec['endog'], units))
        def go(x):
            if not isinstance(x, list): return x
            if x[0] == 'v': return ex.div(x, ex.n(float(c[x[1]]))) if c[x[1]] != 1 else x
            return [x[0]] + [go(t) if isinstance(t, list) else t for t in x[1:]]
        return dict(spec, eqs=[go(q) for q in spec['eqs']], ss={k: float(v)*c[k] for k, v in spec['ss'].items()})

    def run(self, case, mon):
        spec = case['spec']
        d, fo = oracle.analyse(spec)
        if case.get('units'):
            spec = self.rescaled(spec, case['units']); mon.tally('units')
        if fo.gap < .02: mon.tally('near the unit circle')
        if fo.singular or fo.gap < case.get('eps', 5e-4): raise Skip('on the boundary')
        surplus = fo.n - fo.n_stable           # positive: too many explosive roots
        kind = 'determinate' if fo.determinate else ('rank' if surplus == 0 else ('explosive' if surplus > 0 else 'indeterminate'))
        if kind == 'rank' and fo.sv > 1e-12: raise Skip('rank decision is not clear-cut')
        if kind == 'determinate' and not (fo.sv > 1e-3 and fo.condM < 1e5): raise Skip('rank decision is not clear-cut')
        mon.tally(kind)
        try:
            md = gen.build(spec, case['route'])
        except Exception as err:
            # being refused when built is being refused
            if type(err).__name__ != 'ModelIdentificationError': raise
            mon.true('determinate models are accepted', kind != 'determinate', lambda: f'refused when built: {err}')
            mon.seen(kind, shape_key(spec), surplus)
            return

        def attempt(th):
            try: th(); return None
            except Exception as err: return err
        first = attempt(lambda: md.solve(order=case['order']))
        if kind == 'determinate':
            mon.true('determinate models are solved', first is None, lambda: f'{type(first).__name__}: {first}')
            self.roots(md, spec, d, fo, mon)
        else:
            mon.true('models without a unique stable solution are refused', first is not None,
                     lambda: f'{kind} model (stable roots {fo.n_stable} of {fo.n}) was solved')
            # asking again, or for what rests on the solution, is refused too
            mon.true('refused again', attempt(lambda: md.solve(order=3 - case['order'])) is not None, 'accepted at the second request')
            mon.true('simulation of it is refused', attempt(lambda: md.simulate(np.zeros((5, len(spec['stoch']))), order=1)) is not None, 'was simulated')
            mon.true('moments of it are refused', attempt(lambda: md.stats.cov()) is not None, 'moments were given')
            md2 = gen.build(spec, case['route'])
            self.roots(md2, spec, d, fo, mon)
            mon.true('verification refuses', attempt(lambda: md2.statespace.verify()) is not None, 'verify() passed')
            mon.true('verification refuses', attempt(lambda: md2.statespace.verify()) is not None, 'the second verify() passed')
        tally_model(mon, spec)
        mon.seen(kind, shape_key(spec), surplus, spec.get('nonlinear'))

    def roots(self, md, spec, d, fo, mon):
        """the reported roots are those of the linearised model"""
        ss = np.asarray(md.ss.values, dtype=float)
        if np.abs(ss - [spec['ss'][y] for y in spec['endog']]).max() > 1e-6: return
        T = oracle.Timing(spec['endog'], spec['eqs'])
        eig = np.atleast_1d(np.asarray(md.statespace.eigen))
        k = len(T.back) + 2*len(T.mixed) + len(T.fwd)
        mon.equal('number of roots', eig.size, k)
        mod = np.abs(eig)
        expl = int(np.sum(~(mod <= 1)))
        mon.equal('number of explosive roots', expl, len(T.forward_dc) + fo.n - fo.n_stable)
        lo, hi = .05, 20.
        mine = fo.eigs[np.isfinite(fo.eigs)]
        sel = lambda z, a, b: z[(np.abs(z) > a) & (np.abs(z) < b)]
        left = list(sel(eig[np.isfinite(eig)], lo*.9, hi*1.1))
        for z in sel(mine, lo, hi):
            j = min(range(len(left)), key=lambda j: abs(left[j] - z), default=None)
            # multiple roots are found to the square root of the precision only
            ok = j is not None and abs(left[j] - z) < 1e-3*max(1, abs(z))
            mon.true('every root of the linearised model is reported', ok, lambda: f'{z} is not among {eig}')
            if j is not None: left.pop(j)
        left = [z for z in left if lo*1.1 < abs(z) < hi*.9]
        mon.true('no other roots are reported', not left, lambda: f'{left} are not roots; roots are {mine}')


class C12(Check):
    prop = 'C12'
    rule = ('random and structure-covering nonlinear (and some linear) determinate models; the reported second-order arrays are substituted '
            'into the second-order expansion of the expected equations, built with an independent second-order jet of every equation; '
            'non-trivial when the model has non-zero second derivatives or is checked to have none; distinct by structure and rounded norms')
    assumptions = C10.assumptions
    sizes = dict(quick=500, thorough=20000)

    def fixed(self, tier):
        return [dict(spec=s, route=r) for nl, reps in ((True, 2), (False, 1)) for s in structured('C12', nl, reps) for r in ('kwargs', 'file')
                if len(s['endog']) > 1 or True]

    def gen(self, rng, i, tier):
        spec = pick_model(rng, nonlinear=i % 8 != 0, regime=['contraction', 'contraction', 'general'][i % 3], ns=None if i % 17 else 0, start=.2)
        if spec is None: return None
        case = dict(spec=spec, route=['kwargs', 'file'][rng.integers(2)])
        if i % 5 == 0: case['scale'] = float(rng.choice([.25, 2., 4.]))
        return case

    def run(self, case, mon):
        spec = case['spec']
        md = quiet_build(spec, case['route'])
        near_ss(md, spec)
        try: md.solve(order=1)
        except Exception as err: raise Skip('not solved at first order')
        sol = md.solve(order=2)
        ss = np.asarray(md.ss.values, dtype=float)
        S = gen.sigma_of(spec)
        mag = judge_second_order(spec, sol, ss, S, mon)
        if not spec['nonlinear']:
            for a in ('ghxx', 'ghxu', 'ghuu', 'del2'):
                mon.close('linear models have no second-order terms', np.asarray(getattr(sol, a), dtype=float), np.zeros(np.shape(getattr(sol, a))), 1e-9, what=a)
        if 'scale' in case and spec['stoch']:
            c = case['scale']
            sp2 = dict(spec, shocks=[])
            md2 = None
            sh = {s: dict(variance=float(c*S[i, i])) for i, s in enumerate(spec['stoch'])}
            for st in spec['shocks']:
                if st[0] in ('corr', 'cov'):
                    i, j = spec['stoch'].index(st[1]), spec['stoch'].index(st[2])
                    sh[st[1]].update(other=st[2], cov=float(c*S[i, j]))
            from pynare import Model
            kw = gen.kwargs_of(spec); kw['shocks'] = sh
            d2 = np.ravel(Model(**kw).solve(order=2).del2)
            mon.close('the uncertainty term scales with the covariance matrix', d2, c*np.ravel(sol.del2), 1e-7, what=f'del2 at {c} times the covariance')
        tally_model(mon, spec)
        mon.seen(shape_key(spec), spec['nonlinear'], [f'{x:.1e}' for x in mag])


def judge_second_order(spec, sol, ss, S, mon):
    try:
        d, fo = oracle.analyse(spec, ss)
    except oracle.Unfit as u:
        raise Skip(str(u))
    n, q = d.n, d.q
    P = oracle.Policy(spec, sol, ss, q)
    G, H, m = P.G, P.H, n + q
    # second derivatives of the policy; the stored arrays are those of the second-order terms
    Y2 = np.zeros((n, m, m))
    Y2[:, :n, :n] = 2*P.xx
    Y2[:, :n, n:] = P.xu
    Y2[:, n:, :n] = np.transpose(P.xu, (0, 2, 1))
    Y2[:, n:, n:] = 2*P.uu
    for nm, blk in (('states', Y2[:, :n, :n]), ('shocks', Y2[:, n:, n:])):
        mon.close('second derivatives are symmetric', blk, np.transpose(blk, (0, 2, 1)), 1e-7, what=nm)
    K = np.hstack([G, H])
    Z = np.zeros((3*n + q, m))
    Z[:n, :n] = np.eye(n); Z[n:2*n] = K; Z[2*n:3*n] = G @ K; Z[3*n:, n:] = np.eye(q)
    Q = np.einsum('iab,aj,bk->ijk', d.hess, Z, Z)
    lead = np.einsum('ijk,jl,km->ilm', Y2[:, :n, :n], K, K)
    R = np.einsum('ij,jkl->ikl', d.Ap @ G + d.A0, Y2) + np.einsum('ij,jkl->ikl', d.Ap, lead) + Q
    sc = max(1, np.abs(Q).max(initial=0), np.abs(d.jac).max()*max(1, np.abs(G).max())**2*max(1, np.abs(Y2).max(initial=0)))
    for nm, a, b in (('states x states', slice(0, n), slice(0, n)), ('states x shocks', slice(0, n), slice(n, m)), ('shocks x shocks', slice(n, m), slice(n, m))):
        mon.close('second-order terms vanish: ' + nm, R[:, a, b], np.zeros_like(R[:, a, b]), 1e-7*sc, 1)
    fpp = d.hess[:, 2*n:3*n, 2*n:3*n]
    Gss = 2*P.del2
    unc = (d.Ap @ G + d.A0 + d.Ap) @ Gss + np.einsum('ij,jab,ab->i', d.Ap, 2*P.uu, S) \
        + np.einsum('ijk,ja,kb,ab->i', fpp, H, H, S)
    su = max(1, np.abs(d.jac).max()*max(1, np.abs(G).max())*max(1, np.abs(Gss).max(), np.abs(P.uu).max(initial=0)*max(1, np.abs(S).max(initial=0))))
    mon.close('uncertainty terms vanish', unc, np.zeros(n), 1e-7*su, 1)
    return [np.abs(x).max(initial=0) for x in (P.xx, P.xu, P.uu, P.del2)]


class C25(Check):
    prop = 'C25'
    rule = ('the package\'s own matrix routines on random conforming inputs of all shapes (m and n from 1 to 8, real and complex spectra, '
            'sparse, triangular, near-singular-free) and non-conforming ones, plus every call the solvers make to them while solving random models '
            '(recorded by wrapping the routines); distinct by routine, shape and kind of input')
    assumptions = ['inputs whose defining equation is singular or nearly so (condition above 1e8) are not judged']
    sizes = dict(quick=3000, thorough=120000)

    def fixed(self, tier):
        out = [dict(kind='observe', spec=s, order=2) for nl in (True, False) for s in structured('C25', nl)]
        for m in range(1, 6):
            for n in range(1, 6):
                out += [dict(kind='sylvester', m=m, n=n, seed=s, style=['normal', 'rotation', 'triangular', 'policy'][s]) for s in range(4)]
        for nb in range(0, 4):
            for nf in range(0, 4):
                if nb + nf: out += [dict(kind='qz', back=nb, fwd=nf, seed=s, infinite=s) for s in range(3)]
        return out

    def gen(self, rng, i, tier):
        k = i % 9
        s = int(rng.integers(1 << 30))
        if k == 8: return dict(kind='helpers', seed=s)
        if k in (0, 1): return dict(kind='sylvester', m=int(rng.integers(1, 9)), n=int(rng.integers(1, 9)), seed=s,
                                    style=['normal', 'rotation', 'triangular', 'policy', 'sparse'][rng.integers(5)])
        if k in (2, 3): return dict(kind='qz', back=int(rng.integers(0, 6)), fwd=int(rng.integers(0, 6)), seed=s, infinite=int(rng.integers(0, 3)))
        if k == 4: return dict(kind='kron', seed=s)
        if k == 5: return dict(kind='shingle', seed=s)
        if k == 6: return dict(kind='inv', n=int(rng.integers(1, 9)), seed=s)
        return dict(kind='eig', n=int(rng.integers(1, 8)), seed=s)

    # -- the defining equations

    @staticmethod
    def judge_sylvester(A, B, C, D, E, X, mon):
        A, B, C, D = (np.asarray(a, dtype=float) for a in (A, B, C, D))
        E2, X2 = np.asarray(E, dtype=float), np.asarray(X, dtype=float)
        mon.equal('sylvester: shape of the solution', X2.shape, E2.shape)
        if X2.size != E2.size: return
        m, n = A.reshape(-1).size, B.reshape(-1).size
        m, n = int(round(m**.5)), int(round(n**.5))
        A, C, B, D = A.reshape(m, m), C.reshape(m, m), B.reshape(n, n), D.reshape(n, n)
        Xr, Er = X2.reshape(m, n), E2.reshape(m, n)
        sc = max(np.abs(Er).max(initial=0), np.abs(Xr).max(initial=0)*max(np.abs(A).max()*np.abs(B).max(), np.abs(C).max()*np.abs(D).max()), 1e-300)
        mon.close('sylvester: A X B\' + C X D\' = E', A @ Xr @ B.T + C @ Xr @ D.T, Er, 1e-9*sc*max(m, n), 1)

    @staticmethod
    def judge_qz(A, B, res, mon):
        """A x = s B x; blocks of Z, T (of A), S (of B)"""
        eigs, Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22 = [np.asarray(r) for r in res]
        n = len(A)
        mon.equal('qz: number of roots', eigs.size, n)
        k = Z11.shape[0]
        shapes = [(k, k), (k, n-k), (n-k, k), (n-k, n-k), (k, k), (k, n-k), (n-k, n-k), (k, k), (k, n-k), (n-k, n-k)]
        ok = mon.equal('qz: shapes of the blocks', [x.shape for x in (Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22)], shapes)
        if not ok: return
        Z = np.block([[Z11, Z12], [Z21, Z22]])
        T = np.block([[T11, T12], [np.zeros((n-k, k)), T22]])
        S = np.block([[S11, S12], [np.zeros((n-k, k)), S22]])
        mon.close('qz: Z is orthogonal', Z @ Z.T, np.eye(n), 1e-9)
        # A = Q T Z and B = Q S Z for one orthogonal Q: then (A - s B)'(A - s B) = Z' (T - s S)'(T - s S) Z for every s
        sc = max(1, np.abs(A).max(), np.abs(B).max())**2
        for s in (0., 1., -2.):
            L, R = A - s*B, (T - s*S) @ Z
            mon.close('qz: the blocks reproduce the pencil', R.T @ R, L.T @ L, 1e-9*sc*n, 1, f'at s = {s}')
        mon.close('qz: the blocks reproduce the pencil', (S @ Z).T @ (S @ Z), B.T @ B, 1e-9*sc*n, 1, 'B')
        # root s: A x = s B x ... the routine's generalised eigenvalue problem is that of the pair (B, A)
        mod = np.abs(eigs)
        mon.true('qz: stable roots come first, and are those of the leading block', not (mod[:k] > 1 + 1e-9).any() and not (mod[k:] <= 1 - 1e-9).any(),
                 lambda: f'{k} leading roots of {eigs}')
        # the product of leading diagonal blocks carries the stable roots
        if k:
            lead = np.linalg.eigvals(np.linalg.solve(T11, S11)) if np.linalg.cond(T11) < 1e10 else None
            if lead is not None:
                mon.true('qz: the leading block is stable', np.abs(lead).max() < 1 + 1e-6, lambda: f'{lead}')

    def run(self, case, mon):
        import pynare.utils.numpy as unp
        kind = case['kind']
        if kind == 'observe': return self.observe(case, mon, unp)
        rng = rng_for('C25', kind, case['seed'], case.get('m'), case.get('n'))
        mon.tally(kind)
        if kind == 'sylvester':
            m, n, st = case['m'], case['n'], case['style']
            g = lambda k: rng.normal(size=(k, k))
            if st == 'rotation':
                A, C = g(m), g(m)
                B, D = np.eye(n), g(n)
                if n > 1:
                    w = rng.uniform(0, 2*np.pi)
                    D = sl.block_diag(*[np.array([[np.cos(w), -np.sin(w)], [np.sin(w), np.cos(w)]])*rng.uniform(.2, 2) for _ in range((n+1)//2)])[:n, :n]
                    M = g(n); D = M @ D @ np.linalg.inv(M)
            elif st == 'triangular':
                A, C, B, D = np.triu(g(m)), np.triu(g(m)), np.triu(g(n)), np.triu(g(n))
            elif st == 'policy':
                # as in second-order solutions: I X I' + M X (G kron G)'
                A, B = np.eye(m), np.eye(n)
                C, D = .5*g(m), .5*g(n)
            elif st == 'sparse':
                sp = lambda k: g(k)*(rng.random((k, k)) < .4) + np.eye(k)
                A, C, B, D = sp(m), sp(m), sp(n), sp(n)
            else:
                A, C, B, D = g(m), g(m), g(n), g(n)
            E = rng.normal(size=(m, n))
            L = np.kron(A, B) + np.kron(C, D)
            if np.linalg.cond(L) > 1e6: raise Skip('singular equation')
            args = [A, B, C, D, E]
            before = [a.copy() for a in args]
            X = unp.generalized_sylvester(*args)
            self.judge_sylvester(*before, X, mon)
            for a, b in zip(args, before): mon.true('sylvester: inputs are left alone', (a == b).all(), 'an input was changed')
            if n == 1:
                # the arrays on one side are scalars, and the solution is a vector
                b, d = (float(B[0, 0]), float(D[0, 0])) if rng.random() < .5 else (B, D)
                self.judge_sylvester(A, b, C, d, E[:, 0], unp.generalized_sylvester(A, b, C, d, E[:, 0].copy()), mon)
            if m == 1: self.judge_sylvester(A, B, C, D, E, unp.generalized_sylvester(float(A[0, 0]), B, float(C[0, 0]), D, E.copy()), mon)
            mon.close('sylvester: the solution is the unique one', X, np.linalg.solve(L, E.reshape(-1)).reshape(m, n), 1e-7*np.linalg.cond(L)/100 + 1e-8)
            # non-conforming
            bad = [(A, B, C, D, rng.normal(size=(m+1, n))), (A, B, C, D, rng.normal(size=(m, n+1))),
                   (rng.normal(size=(m+1, m+1)), B, C, D, E), (A, rng.normal(size=(n+1, n+1)), C, D, E),
                   (rng.normal(size=(m, m+1)), B, rng.normal(size=(m, m+1)), D, E), (A, rng.normal(size=(n, n+1)), C, rng.normal(size=(n, n+1)), E)]
            # the two arrays on a side must agree, also where numpy would stretch one
            if m > 1: bad += [(A, B, C[:1, :1], D, E), (A[:1, :1], B, C, D, E), (A, B, C[:1], D, E)]
            if n > 1: bad += [(A, B, C, D[:1, :1], E), (A, B[:1, :1], C, D, E), (A, B, C, D[:, :1], E)]
            bad += [(A, B, C, D, E[:1])] if m > 1 else []
            bad += [(A, B, C, D, E[:, :1])] if n > 1 else []
            for b in bad: mon.raises('sylvester: shapes that do not conform are refused', lambda: unp.generalized_sylvester(*b), what=str([x.shape for x in b]))
            mon.seen(kind, m, n, st, int(np.iscomplex(np.linalg.eigvals(D)).sum()))
        elif kind == 'qz':
            nb, nf = case['back'], case['fwd']
            n = nb + nf
            if n == 0: raise Skip('empty')
            # chosen roots, some infinite
            st = rng.uniform(.02, .9, nb)*rng.choice([1, -1], nb); un = rng.uniform(1.1, 5, nf)*rng.choice([1, -1], nf)
            R = np.diag(np.concatenate([st, un])); Lm = np.eye(n)
            if nb >= 2 and rng.random() < .6:
                w = rng.uniform(.3, 2.8); R[:2, :2] = rng.uniform(.2, .9)*np.array([[np.cos(w), -np.sin(w)], [np.sin(w), np.cos(w)]])
            if nf >= 2 and rng.random() < .6:
                w = rng.uniform(.3, 2.8); R[nb:nb+2, nb:nb+2] = rng.uniform(1.2, 3)*np.array([[np.cos(w), -np.sin(w)], [np.sin(w), np.cos(w)]])
            for t in range(min(case['infinite'], nf - 2 if nf >= 2 else nf)):
                if nf - 1 - t >= 0: Lm[n-1-t, n-1-t] = 0; R[n-1-t, n-1-t] = 1
            p = rng.permutation(n)
            M, N = rng.normal(size=(n, n)), rng.normal(size=(n, n))
            if np.linalg.cond(M) > 1e3 or np.linalg.cond(N) > 1e3: raise Skip('ill-conditioned transformation')
            # roots s with det(B - s A) = 0, the state-space convention A x(+1) = B x
            A, B = M @ Lm[np.ix_(p, p)] @ N, M @ R[np.ix_(p, p)] @ N
            a0, b0 = A.copy(), B.copy()
            res = unp.partitioned_qz(A, B)
            mon.true('qz: inputs are left alone', (A == a0).all() and (B == b0).all(), 'an input was changed')
            self.judge_qz(a0, b0, res, mon)
            eigs = np.asarray(res[0])
            mon.equal('qz: size of the stable block', np.asarray(res[1]).shape, (nb, nb))
            want = [z for blk in (R,) for z in self.roots(R, Lm)]
            left = [z for z in eigs if np.isfinite(z) and abs(z) < 1e6]
            for z in want:
                j = min(range(len(left)), key=lambda j: abs(left[j] - z), default=None)
                ok = j is not None and abs(left[j] - z) < 1e-5*max(1, abs(z))
                mon.true('qz: the roots are the generalised eigenvalues', ok, lambda: f'{z} not among {eigs}')
                if j is not None: left.pop(j)
            mon.true('qz: no spurious roots', not left, lambda: f'{left} in {eigs}, expected {want}')
            mon.seen(kind, nb, nf, case['infinite'], len([z for z in want if abs(z.imag) > 1e-9]))
        elif kind == 'kron':
            a, b, c, d, e = (int(x) for x in rng.integers(1, 5, 5))
            B, C = rng.normal(size=(a, b)), rng.normal(size=(c, d))
            A = rng.normal(size=(e, a*c)); A0, B0, C0 = A.copy(), B.copy(), C.copy()
            want = np.einsum('exy,xb,yd->ebd', A.reshape(e, a, c), B, C).reshape(e, b*d)
            mon.close('kronecker product', unp.matrix_kronecker_product(A, B, C), want, 1e-11)
            A2 = rng.normal(size=(e, a*a))
            mon.close('kronecker square', unp.matrix_kronecker_product(A2, B), np.einsum('exy,xb,yd->ebd', A2.reshape(e, a, a), B, B).reshape(e, b*b), 1e-11)
            mon.true('kronecker: inputs are left alone', (A == A0).all() and (B == B0).all() and (C == C0).all(), 'an input was changed')
            mon.raises('kronecker: shapes that do not conform are refused', lambda: unp.matrix_kronecker_product(rng.normal(size=(e, a*c+1)), B, C))
            mon.seen(kind, a, b, c, d)
        elif kind == 'shingle':
            r0, r1 = (int(x) for x in rng.integers(0, 6, 2))
            tail = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
            k = int(rng.integers(0, min(r0, r1)+1))
            a0, a1 = rng.normal(size=(r0,)+tail), rng.normal(size=(r1,)+tail)
            mon.close('overlap merge', unp.array_shingle(a0, a1, k), np.concatenate([a0, a1[k:]]), 0)
            bad = rng.normal(size=(r1,)+tail+(2,))
            mon.raises('overlap merge: shapes that do not conform are refused', lambda: unp.array_shingle(a0, bad, k))
            if tail: mon.raises('overlap merge: shapes that do not conform are refused', lambda: unp.array_shingle(a0, rng.normal(size=(r1, tail[0]+1)+tail[1:]), k))
            if tail:
                # differing in any one trailing dimension, also where numpy would stretch a length of one
                j = int(rng.integers(0, len(tail))); other = tail[:j] + (1 if tail[j] > 1 else 3,) + tail[j+1:]
                mon.raises('overlap merge: shapes that do not conform are refused', lambda: unp.array_shingle(a0, rng.normal(size=(r1,)+other), k), what=str((tail, other)))
                mon.raises('overlap merge: shapes that do not conform are refused', lambda: unp.array_shingle(rng.normal(size=(r0,)+other), a1, k), what=str((other, tail)))
            mon.seen(kind, r0, r1, k, tail)
        elif kind == 'inv':
            n = case['n']
            M = rng.normal(size=(n, n)); M = M @ M.T + .1*np.eye(n)
            if rng.random() < .3: M = np.diag(np.diag(M))
            if np.linalg.cond(M) > 1e7: raise Skip('ill-conditioned')
            M0 = M.copy()
            V = unp.inv_sym_pd(M)
            mon.close('symmetric inverse', V @ M0, np.eye(n), 1e-13*np.linalg.cond(M0) + 1e-11, 1)
            mon.close('symmetric inverse is symmetric', V, V.T, 1e-12)
            mon.true('inverse: input is left alone', (M == M0).all(), 'the input was changed')
            bad = M0 - (np.linalg.eigvalsh(M0)[0] + 1)*np.eye(n)
            mon.raises('inverse of a matrix that is not positive definite is refused', lambda: unp.inv_sym_pd(bad))
            mon.seen(kind, n, f'{np.linalg.cond(M0):.0e}')
        elif kind == 'eig':
            n = case['n']
            M = rng.normal(size=(n, n))
            w = np.linalg.eigvals(M)
            for order in ('descending', 'ascending'):
                z = unp.eigvals_sorted(M, order)
                mod = np.abs(z)
                mon.true('sorted eigenvalues are in order', (np.diff(mod)*(1 if order == 'ascending' else -1) >= -1e-12).all(), lambda: f'{order}: {z}')
                mon.close('sorted eigenvalues are all of them', np.sort(mod), np.sort(np.abs(w)), 1e-9)
                k = int(rng.integers(0, n+1))
                zk = unp.eigvals_sorted(M, order, k)
                mon.close('the first k of them', np.abs(zk), mod[:k], 1e-12)
            mon.raises('unknown order is refused', lambda: unp.eigvals_sorted(M, 'up'))
            mon.seen(kind, n, int(np.iscomplex(w).sum()))
        elif kind == 'helpers': self.helpers(rng, mon, unp)

    def helpers(self, rng, mon, unp):
        """what the array helpers say they do"""
        g = lambda *sh: rng.normal(size=sh)
        a, b, c = (int(x) for x in rng.integers(1, 5, 3))
        # scalars, vectors and matrices as matrices
        pool = [g(a, b), g(a), np.array(g()), float(g()), int(rng.integers(9)), g(1), g(1, 1), complex(1, float(g())), g(1, b), g(b, 1)]
        seq = [pool[int(t)] for t in rng.integers(0, len(pool), int(rng.integers(1, 6)))]
        for orient in ('column', 'row'):
            for typ in (list, tuple):
                got = unp.ensure_2darray(typ(seq), orient=orient)
                mon.true('two dimensions: the sequence', type(got) is typ and len(got) == len(seq), lambda: f'{type(got).__name__} of {len(got)} for {typ.__name__} of {len(seq)}')
                for x, y in zip(seq, got):
                    nd = np.ndim(x)
                    want = np.asarray(x).reshape((1, 1) if nd == 0 else ((-1, 1) if orient == 'column' else (1, -1)) if nd == 1 else np.shape(x))
                    mon.true('two dimensions: the array', np.shape(y) == want.shape and np.array_equal(y, want), lambda: f'{orient} of {np.shape(x)}: {np.shape(y)}')
            x = pool[int(rng.integers(2))]
            y = unp.ensure_2darray(x, orient=orient)
            mon.true('two dimensions: the array', np.array_equal(y, x if x.ndim == 2 else x[:, None] if orient == 'column' else x[None, :]), lambda: f'{orient} of {x.shape}: {y.shape}')
        mon.raises('two dimensions: others are refused', lambda: unp.ensure_2darray(g(a, b, c)))
        mon.raises('two dimensions: others are refused', lambda: unp.ensure_2darray([g(a), g(a, b, c)], orient='row'))
        mon.raises('two dimensions: others are refused', lambda: unp.ensure_2darray([g(a), 'x']))
        mon.raises('two dimensions: others are refused', lambda: unp.ensure_2darray(g(a), orient='diagonal'))
        # joining scalars, vectors and matrices
        def judge(parts, orient, axis):
            two = [np.asarray(x).reshape((1, 1) if np.ndim(x) == 0 else ((-1, 1) if orient == 'column' else (1, -1)) if np.ndim(x) == 1 else np.shape(x)) for x in parts]
            want = np.concatenate(two, axis=axis)
            got = unp.concatenate_maybe_1d(parts, orient=orient, axis=axis)
            mon.true('joined', np.array_equal(np.squeeze(got), want.squeeze()), lambda: f'{[np.shape(x) for x in parts]} {orient} {axis}: {got} != {want}')
        judge([g(a), g(b), float(g()), g(c, 1)], 'column', 0)
        judge([g(a), g(a, b), g(a)], 'column', 1)
        judge([g(b), g(a, b), g(1, b)], 'row', 0)
        judge([g(a), g(b), float(g()), np.array(g()), g(1, c)], 'row', 1)
        # products with scalars
        M, N, v = g(a, b), g(b, c), g(b)
        z = float(g())
        big = lambda x: x.size > 1
        for s in (z, np.float64(z), np.array(z), 3):
            if big(M):
                mon.close('product with a scalar', unp.matmul_scalar(s, M), float(s)*M, 1e-13)
                mon.close('product with a scalar', unp.matmul_scalar(M, s), float(s)*M, 1e-13)
            mon.close('product with a scalar', unp.matmul_scalar(s, z), float(s)*z, 1e-13)
        if big(M) and big(N): mon.close('product', unp.matmul_scalar(M, N), M @ N, 1e-12)
        if big(M) and big(v): mon.close('product', unp.matmul_scalar(M, v), M @ v, 1e-12)
        if big(M) and big(N) and a != b and b > 1: mon.raises('product: shapes that do not conform are refused', lambda: unp.matmul_scalar(M, g(b + 1, c)))
        # conjugate transpose
        Z = g(a, b) + 1j*g(a, b)
        mon.close('conjugate transpose', unp.hermitian(Z).real, Z.real.T, 0)
        mon.close('conjugate transpose', unp.hermitian(Z).imag, -Z.imag.T, 0)
        mon.close('conjugate transpose', unp.hermitian(M), M.T, 0)
        # first true entry
        x = rng.random(int(rng.integers(1, 9))) < float(rng.choice([.1, .5]))
        at = next((t for t, w in enumerate(x) if w), -1)
        mon.equal('first true entry', int(unp.find_first(x)), at)
        mon.equal('first true entry', int(unp.find_first(x.astype(int)*256)), at)
        mon.seen('helpers', a, b, c, len(seq), at)

    @staticmethod
    def roots(R, L):
        w = sl.eigvals(R, L)
        return [complex(z) for z in w if np.isfinite(z) and abs(z) < 1e6]

    def observe(self, case, mon, unp):
        """solve a model with the routines wrapped: every call made by the solvers is judged"""
        calls = []
        saved = {}

        def wrap(name):
            orig = getattr(unp, name, None)
            if orig is None: return
            saved[name] = orig

            def w(*a, **k):
                a0 = [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a]
                r = orig(*a, **k)
                calls.append((name, a0, a, k, r))
                return r
            setattr(unp, name, w)
        for nm in ('generalized_sylvester', 'partitioned_qz', 'matrix_kronecker_product', 'array_shingle'): wrap(nm)
        try:
            try:
                md = gen.build(case['spec']); md.solve(order=case['order'])
            except Exception as err:
                raise Skip(f'not solved: {type(err).__name__}')
        finally:
            for nm, f in saved.items(): setattr(unp, nm, f)
        for name, a0, a, k, r in calls:
            mon.event('calls observed: ' + name)
            for x, y in zip(a, a0):
                if isinstance(x, np.ndarray): mon.true(name + ': inputs are left alone', np.array_equal(x, y, equal_nan=True), 'an input was changed')
            if k: continue
            if name == 'generalized_sylvester': self.judge_sylvester(*a0, r, mon)
            elif name == 'partitioned_qz': self.judge_qz(*a0, r, mon)
            elif name == 'matrix_kronecker_product':
                B = a0[1]; C = a0[2] if len(a0) > 2 and a0[2] is not None else B
                if B.ndim == 2 and C.ndim == 2 and np.ndim(a0[0]) == 2:
                    mon.close('kronecker product', r, a0[0] @ np.kron(B, C), 1e-10)
            elif name == 'array_shingle':
                mon.close('overlap merge', r, np.concatenate([a0[0], a0[1][a0[2]:]]), 0)
            mon.seen('observe', name, [np.shape(x) for x in a0])


CHECKS = [C10, C11, C12, C25]
