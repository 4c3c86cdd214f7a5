"""C19-C20: piecewise linear solutions under occasionally binding constraints"""
import math, types, warnings
import numpy as np
import scipy.linalg as sl
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, rng_for
from vmon.common import *

MARGIN = 1e-7


# -------------------------------------------------------------------------- the workloads

def other_names(rng, spec, k):
    taken = set(spec['endog']) | set(spec['stoch']) | {a for a, _ in spec['params']}
    return gen.names(rng, gen.NAMES + ['notional', 'lam_', 'r_n', 'cap'], k, taken)


def constrain(rng, spec, j, name, shadow):
    """
    add a constrained variable `name` to the model and, as equation(s) to be replaced, the form it
    takes where the constraint binds. gives {equation of the reference: replacement} and conditions
    """
    kind = ['floor', 'ceiling', 'multiplier'][int(rng.choice([0, 0, 1, 2]))]
    level = float(np.round(rng.uniform(-1, 2), 2)) if rng.random() < .5 else 0.0     # steady state of the variable
    c = float(np.round(rng.uniform(.02, .4), 2))
    sgn = -1 if kind in ('floor', 'multiplier') else 1
    endog, ss = spec['endog'], spec['ss']
    dv = lambda y, t=0: ex.sub(ex.v(y, t), ex.n(float(ss[y]))) if ss[y] else ex.v(y, t)
    base = [y for y in endog if y not in spec['extra']]
    drive = base[int(rng.integers(len(base)))]
    lead = [y for y in base if rng.random() < .3][:1]
    # notional rule
    rule = ex.mul(ex.n(float(np.round(rng.uniform(.4, 1.2)*rng.choice([-1, 1]), 2))), dv(drive))
    if rng.random() < .6: rule = ex.add(rule, ex.mul(ex.n(float(np.round(rng.uniform(.1, .7), 2))), ex.sub(ex.v(shadow, -1), ex.n(level)) if level else ex.v(shadow, -1)))
    elif rng.random() < .5 and lead:
        rule = ex.add(rule, ex.mul(ex.n(.2), dv(lead[0], 1)))
    if rng.random() < .5: rule = ex.add(rule, ex.e(spec['stoch'][int(rng.integers(len(spec['stoch'])))]))
    cx = ex.n(c)
    if rng.random() < .4:
        p = next(s for s in [f'lim{j}', f'lim{j}_'] if s not in endog + spec['stoch'])
        if rng.random() < .5 and p + 'h' not in endog + spec['stoch']:
            # defined through another parameter
            spec['params'].append([p + 'h', ex.n(c/2)]); spec['params'].append([p, ex.mul(ex.n(2), ex.p(p + 'h')) if rng.random() < .5 else ex.add(ex.p(p + 'h'), ex.n(c/2))])
        else: spec['params'].append([p, ex.n(c)])
        cx = ex.p(p)
    feed = float(np.round(rng.uniform(.05, .4)*rng.choice([-1, 1]), 2))
    fdate = int(rng.choice([0, 0, 0, 1, -1]))
    i = int(rng.integers(len(spec['eqs'])))
    if kind == 'multiplier':
        # the variable moves freely until it reaches the floor, where the multiplier holds it
        mult = shadow
        spec['ss'][name] = level; spec['ss'][mult] = 0.0
        free = ex.mul(ex.n(float(np.round(rng.uniform(.4, 1.2), 2))), dv(drive))
        if rng.random() < .6: free = ex.add(free, ex.mul(ex.n(.4), ex.sub(ex.v(name, -1), ex.n(level))))
        main = ['=', ex.sub(ex.v(name), ex.n(level)), ex.add(free, ex.v(mult))]
        ref = ['=', ex.v(mult), ex.n(0)] if rng.random() < .5 else ex.v(mult)
        alt = ['=', ex.v(name), ex.sub(ex.n(level), cx)]
        bind, relax = ['<', ex.v(name), ex.neg(cx)], ['<', ex.v(mult), ex.n(0)]
    else:
        spec['ss'][name] = level; spec['ss'][shadow] = level
        main = ['=', ex.sub(ex.v(shadow), ex.n(level)) if level else ex.v(shadow), rule]
        ref = ['=', ex.v(name), ex.v(shadow)]
        shock = lambda x: ex.add(x, ex.mul(ex.n(float(np.round(rng.uniform(.1, .6)*rng.choice([-1, 1]), 2))), ex.e(spec['stoch'][int(rng.integers(len(spec['stoch'])))])))
        # the regimes may respond to the shocks differently
        if rng.random() < .35: ref[2] = shock(ref[2])
        lim = ex.add(ex.n(level), cx) if sgn > 0 else ex.sub(ex.n(level), cx)
        alt = ['=', ex.v(name), lim]
        r = rng.random()
        if r < .15: alt = ['=', ex.f('exp', ex.v(name)), ex.f('exp', lim)]      # nonlinear, linearised around the steady state
        elif r < .35: alt = ['=', ex.v(name), ex.add(lim, ex.mul(ex.n(.15), ex.sub(ex.v(name, -1), ex.n(level))))]
        elif r < .45: alt = ['=', ex.v(name), ex.add(lim, ex.mul(ex.n(.1), dv(drive, 1)))]
        if rng.random() < .25: alt[2] = shock(alt[2])
        edge = cx if sgn > 0 else ex.neg(cx)
        op = ['>', '<'][sgn < 0] + ['', '='][int(rng.random() < .2)]
        # where it binds, and where it is slack again
        bind = [op, ex.v(name), edge]
        relax = [{'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op], ex.v(shadow), edge]
        if rng.random() < .2: bind = [op, ex.sub(ex.v(name), edge), ex.n(0)]
        if rng.random() < .2: relax = [{'<': '>', '<=': '>=', '>': '<', '>=': '<='}[relax[0]], relax[2], relax[1]]
    # feeds back into the rest of the model
    q = spec['eqs'][i]
    fx = ex.sub(ex.v(name, fdate), ex.n(level)) if level else ex.v(name, fdate)
    spec['eqs'][i] = ['=', q[1], ex.add(q[2], ex.mul(ex.n(feed), fx))] if q[0] == '=' else ex.add(q, ex.mul(ex.n(feed), fx))
    swaps = [(ref, alt)]
    if rng.random() < .25:
        # the regime changes another equation of the model as well
        i = int(rng.integers(spec['n_base']))
        q = spec['eqs'][i]
        k = ex.mul(ex.n(float(np.round(rng.uniform(-.15, .15), 2))), dv(base[int(rng.integers(len(base)))], int(rng.choice([0, -1]))) if rng.random() < .6 else ex.e(spec['stoch'][int(rng.integers(len(spec['stoch'])))]))
        swaps.append((q, ['=', q[1], ex.add(q[2], k)] if q[0] == '=' else ex.add(q, k)))
    for x in (main, ref): spec['eqs'].append(x)
    for y in (name, shadow): endog.append(y); spec['extra'].append(y)
    return kind, swaps, bind, relax, c


def workload(rng, k):
    """a model with k constraints"""
    for _ in range(60):
        spec = gen.gen_model(rng, n=int(rng.integers(1, 4)), ns=int(rng.integers(1, 4)), nonlinear=bool(rng.random() < .4), regime='contraction')
        spec['extra'] = []; spec['n_base'] = len(spec['eqs'])
        nm = other_names(rng, spec, 2*k)
        cons, unique = [], True
        for j in range(k):
            kind, swaps, bind, relax, c = constrain(rng, spec, j, nm[2*j], nm[2*j+1])
            cons.append(dict(kind=kind, swaps=swaps, bind=bind, relax=relax, c=c))
        # equation numbers after shuffling; a later constraint may have extended an equation that an earlier one replaces
        if len({repr(q) for q in spec['eqs']}) < len(spec['eqs']): continue
        order = [int(t) for t in rng.permutation(len(spec['eqs']))]
        where = {repr(q): order.index(t) for t, q in enumerate(spec['eqs'])}
        ok = True
        for con in cons:
            con['exprs'] = {}
            for a, b in con['swaps']:
                if repr(a) not in where: ok = False; break
                con['exprs'][where[repr(a)]] = b
            del con['swaps']
        if not ok: continue
        if k == 2 and set(cons[0]['exprs']) & set(cons[1]['exprs']): continue
        spec['eqs'] = [spec['eqs'][t] for t in order]
        spec['endog'] = [spec['endog'][t] for t in rng.permutation(len(spec['endog']))]
        spec['shocks'] = gen.gen_shocks(rng, spec['stoch'], 'var') if rng.random() < .3 else []
        if not oracle.classes_ok(spec): continue
        try: d, fo = oracle.analyse(spec)
        except oracle.Unfit: continue
        if not oracle.regular_ss(d) or not fo.well(): continue
        if k == 2 and rng.random() < .4:
            # where both bind the model need not be the union of the two
            both = {**cons[0]['exprs'], **cons[1]['exprs']}
            for _ in range(int(rng.integers(1, 3))):
                i = int(rng.integers(len(spec['eqs']))) if rng.random() < .5 else list(both)[int(rng.integers(len(both)))]
                q = both.get(i, spec['eqs'][i])
                y = spec['endog'][int(rng.integers(len(spec['endog'])))]
                t = [ex.e(spec['stoch'][int(rng.integers(len(spec['stoch'])))]), ex.n(float(np.round(rng.uniform(.02, .2), 2))),
                     ex.sub(ex.v(y, int(rng.choice([0, -1]))), ex.n(float(spec['ss'][y])))][int(rng.integers(3))]
                t = ex.mul(ex.n(float(np.round(rng.uniform(-.3, .3), 2))), t)
                both[i] = ['=', q[1], ex.add(q[2], t)] if q[0] == '=' else ex.add(q, t)
            cons[0]['both'] = both
        # every regime keeps every variable in the current period
        regs = regimes(spec, cons)
        if any(not oracle.classes_ok(dict(spec, eqs=r['eqs'])) for r in regs): continue
        try:
            for r in regs: Regime(spec, r['eqs'])
        except oracle.Unfit: continue
        return spec, cons
    return None, None


def regimes(spec, cons):
    """all combinations of binding constraints: reference, first, second, both"""
    out = []
    for b in range(1 << len(cons)):
        eqs = list(spec['eqs'])
        for j, con in enumerate(cons):
            if len(cons) == 2 and b == 3 and 'both' in cons[0]: con = dict(exprs=cons[0]['both'])
            if b >> j & 1:
                for i, x in con['exprs'].items(): eqs[int(i)] = x
        out.append(dict(eqs=eqs, bound=tuple(bool(b >> j & 1) for j in range(len(cons)))))
    return out


class Regime(object):
    """the equations of a regime linearised around the reference steady state"""

    def __init__(self, spec, eqs):
        d = oracle.Deriv(dict(spec, eqs=eqs), [spec['ss'][y] for y in spec['endog']])
        self.Am, self.A0, self.Ap, self.C, self.D = d.Am, d.A0, d.Ap, d.C, d.f

    def residual(self, lag, cur, lead, u):
        return self.Am @ lag + self.A0 @ cur + self.Ap @ lead + self.C @ u + self.D


def slack(cond, y, names, vals):
    """positive where the condition holds, negative where it does not"""
    env = dict(vals)
    for nm, x in zip(names, y):
        env[(nm, 0)] = float(x); env[nm] = float(x)
    a, b = ex.value(cond[1], env), ex.value(cond[2], env)
    return (b - a) if cond[0] in ('<', '<=') else (a - b)


# ------------------------------------------------------------------------------ references

class Search(object):
    """guess-and-verify on the stacked equations: does a solution settle, and which"""

    def __init__(self, spec, cons, regs, G):
        self.names, self.cons, self.G = spec['endog'], cons, G
        self.vals = gen.param_values(spec)
        self.regs = {r['bound']: Regime(spec, r['eqs']) for r in regs}
        self.n = len(self.names)

    def stacked(self, hypo, init, u):
        n, T = self.n, len(hypo)
        M, R = np.zeros((n*T, n*T)), np.zeros(n*T)
        for s in range(T):
            r = self.regs[tuple(bool(t) for t in hypo[s])]
            b = slice(n*s, n*s+n)
            M[b, b] += r.A0
            if s: M[b, n*(s-1):n*s] += r.Am
            else: R[b] -= r.Am @ init + r.C @ u
            if s < T - 1: M[b, n*(s+1):n*(s+2)] += r.Ap
            else: M[b, b] += r.Ap @ self.G
            R[b] -= r.D
        if not np.isfinite(M).all(): return None
        lu = sl.lu_factor(M, check_finite=False)
        if sl.lapack.dgecon(lu[0], np.abs(M).sum(0).max())[0] < 1e-10: return None
        return sl.lu_solve(lu, R).reshape(T, n)

    def run(self, init, U, periods, max_iter=20):
        """(paths, hypotheses) or None where it does not settle or is decided by rounding"""
        T = periods + 1
        hypo = np.zeros((T, len(self.cons)), dtype=bool)
        out = []
        binds = np.zeros(len(self.cons), dtype=bool)
        ends = []
        for u in U:
            for it in range(max_iter):
                if hypo[-1].any() or hypo[-2].any(): return None
                y = self.stacked(hypo, init, u)
                if y is None or np.abs(y).max() > 1e6: return None
                new = hypo.copy()
                change = False
                for j, con in enumerate(self.cons):
                    for s in range(T):
                        h = hypo[s, j]
                        x = slack(con['relax' if h else 'bind'], y[s], self.names, self.vals)
                        if abs(x) < 1e-6: return None
                        if x > 0: new[s, j] = not h; change = True
                if not change: break
                hypo = new
            else: return None
            init = y[0]
            out.append(init)
            ends.append(hypo.copy())
            binds = binds | hypo.any(0)          # in force or expected to be
            hypo = np.vstack([hypo[1:], np.zeros((1, len(self.cons)), dtype=bool)])
        rest = periods - len(U)
        self.binds = binds
        return np.vstack([np.array(out), y[1:rest+1]]) if rest else np.array(out), ends


def follow(mon, spec, cons, regs, paths, k, init, u, what):
    """
    the rows from k on are an expected path: each satisfies the equations of a regime that fits the
    conditions. gives the regimes, or None after reporting
    """
    names, vals = spec['endog'], gen.param_values(spec)
    R = [(r['bound'], Regime(spec, r['eqs'])) for r in regs]
    T = len(paths)
    zero = np.zeros(len(spec['stoch']))
    found = []
    for s in range(k, T - 1):           # what is expected after the last row is not recorded
        lag = (paths[s-1] if s else init)
        lead = paths[s+1]
        fits = []
        best = np.inf
        for b, r in R:
            res = r.residual(lag, paths[s], lead, u if s == k else zero)
            sc = 1 + max(np.abs(r.Ap).max(), np.abs(r.A0).max(), np.abs(r.Am).max())*max(1, np.abs(paths[s]).max(), np.abs(lead).max(), np.abs(lag).max())
            best = min(best, np.abs(res).max()/sc)
            if np.abs(res).max() < 1e-8*sc: fits.append(b)
        mon.event('periods judged against the equations of the regimes')
        if not fits:
            return ('the equations of no regime are satisfied', f'{what}: period {s}: smallest residual {best:.3g}; path {np.round(paths[max(0, s-1):s+2], 6).tolist()}')
        good = []
        for b in fits:
            ok = True
            for j, con in enumerate(cons):
                x = slack(con['relax' if b[j] else 'bind'], paths[s], names, vals)
                if x > MARGIN: ok = False
            if ok: good.append(b)
        mon.event('periods judged against the conditions')
        if not good:
            return ('the regime in force does not fit the conditions', f'{what}: period {s}: satisfies the equations of {fits} (binding first, second) but the conditions say otherwise; '
                    f'{dict(zip(names, np.round(paths[s], 6).tolist()))}; conditions ' + '; '.join(f'{cond(c["bind"])} / {cond(c["relax"])}' for c in cons))
        found.append(good)
    return found


def pattern(h):
    """the succession of regimes"""
    out = []
    for r in np.asarray(h).astype(int):
        k = ''.join(map(str, r))
        if not out or out[-1] != k: out.append(k)
    return out


def cond(c):
    return ex.show(c[1]) + ' ' + c[0] + ' ' + ex.show(c[2])


class OccCheck(Check):
    k = 1
    assumptions = ['the reference model is comfortably determinate; every regime has each variable in the current period; the path returns to the reference regime before the last period',
                   'conditions are stated on deviations from the reference steady state, shocks are innovations (both as documented)',
                   'a search that does not settle must be reported by a warning; where an independent guess-and-verify search settles with a margin the package\'s search must settle as well']

    def gen(self, rng, i, tier):
        spec, cons = workload(rng, self.k)
        if spec is None: return None
        q = len(spec['stoch'])
        form = ['default', 'name', 'names', 'all', 'random', 'column'][int(rng.integers(6))]
        if form == 'names': exog = [spec['stoch'][t] for t in rng.permutation(q)[:int(rng.integers(1, q + 1))]]
        elif form == 'all': exog = list(spec['stoch'])
        elif form == 'name': exog = spec['stoch'][int(rng.integers(q))]
        else: exog = None
        m = len(exog) if isinstance(exog, list) else 1
        K = int(rng.choice([1, 1, 2, 3, 5]))
        size = float(rng.choice([.02, 1, 2, 4, 8]))
        U = np.round(rng.normal(size=(K, m))*size, 3)
        if rng.random() < .2: U[int(rng.integers(K))] = 0
        if rng.random() < .75: U = self.eventful(rng, spec, cons, U, exog, q, size)
        long = rng.random() < .08
        if long: U = np.round(rng.normal(size=(24, m))*size*(rng.random((24, 1)) < .2), 3); U[10:] = 0
        return dict(spec=spec, cons=cons, form=form, exog=exog, U=U.tolist(), periods=0 if long else int(rng.choice([15, 30, 45])) if rng.random() < .85 else K + int(rng.integers(1, 7)), init=bool(rng.random() < .3),
                    max_iter=int(rng.choice([20, 20, 20, 20, 1, 2, 3, 50])), seed=int(rng.integers(1 << 30)), before=int(rng.integers(4)), restrained=bool(rng.random() < .25), direct=bool(rng.random() < .15), mismatch=['endog', 'stoch', 'more', 'params', 'rename'][int(rng.integers(5))])

    def eventful(self, rng, spec, cons, U, exog, q, size):
        """of a few draws the one under which the regimes alternate most, as far as the search settles"""
        regs = regimes(spec, cons)
        try: G = oracle.analyse(spec)[1].G
        except oracle.Unfit: return U
        at = [0] if exog is None else [spec['stoch'].index(t) for t in ([exog] if isinstance(exog, str) else exog)]
        best = (-1, U)
        for z in (1, 1, 2, 5):
            V = U if best[0] < 0 else np.round(rng.normal(size=U.shape)*size*z, 3)
            r = Search(spec, cons, regs, G).run(np.zeros(len(spec['endog'])), self.full(V, at, q), 30)
            if r is None: sc = 0
            else: sc = 1 + sum(len(pattern(h)) for h in r[1]) + 2*sum('0' in pattern(h)[:1] and len(pattern(h)) > 1 for h in r[1])
            if sc > best[0]: best = (sc, V)
        return best[1]

    # the package's answer
    def solved(self, md, case, U, periods, init, cons, exprs, max_iter):
        st = ex.Style()
        names = [(cond(c['bind']), cond(c['relax'])) for c in cons]
        con = names[0] if len(cons) == 1 else names
        kw = dict(constraint=con, exprs=exprs, shocks=U, periods=periods or None, max_iter=max_iter)
        if init is not None: kw['init'] = init
        if case['exog'] is not None: kw['exog'] = case['exog']
        if case.get('restrained') and len(cons) == 2: kw['restrained'] = True
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if case.get('direct') and len(cons) == self.k:
                # with regimes built as models of their own
                from pynare.core.solve import solve_occbin_one_constraint, solve_occbin_two_constraints
                from pynare.core.solve.binding import Constraint
                spec = case['spec']
                mds = [quiet_build(dict(spec, eqs=r['eqs'])) for r in regimes(spec, cons)[1:]]
                for k in ('constraint', 'exprs'): kw.pop(k)
                fun = solve_occbin_one_constraint if self.k == 1 else solve_occbin_two_constraints
                paths, shocks = fun(md, *mds, constraint=Constraint(con, endog=md.endog, params=md.params, exog=md.stoch), **kw)
                sol = types.SimpleNamespace(paths=paths, shocks=shocks)
                if 'mismatch' in case and not case.get('asked'):
                    case = dict(case, asked=True)
                    self.mismatched(md, mds, case, con, kw, fun)
            else: sol = md.solve(**kw)
        told = [str(x.message) for x in w if 'converge' in str(x.message) or 'periods' in str(x.message)]
        return sol, told

    def mismatched(self, md, mds, case, con, kw, fun):
        """regimes whose variables or parameters are others, or declared in another order, are no regimes of the model"""
        from pynare.core.solve.binding import Constraint
        spec, mon, rng = case['spec'], self.mon, rng_for(self.prop, case['seed'] + 1)
        j = int(rng.integers(len(mds)))
        eqs = regimes(spec, case['cons'])[1:][j]['eqs']
        kind = case['mismatch']
        if kind == 'endog':
            if len(spec['endog']) < 2: return
            other = dict(spec, eqs=eqs, endog=spec['endog'][1:] + spec['endog'][:1])
        elif kind == 'stoch':
            if len(spec['stoch']) < 2: return
            other = dict(spec, eqs=eqs, stoch=spec['stoch'][1:] + spec['stoch'][:1])
        elif kind == 'more': other = dict(spec, eqs=eqs, stoch=spec['stoch'] + ['zz_shock'])
        else: other = dict(spec, eqs=eqs, params=spec['params'] + [['zz_par', ex.n(.5)]])
        try:
            if kind == 'rename':
                mine = dict(spec, params=spec['params'] + [['zz_other', ex.n(.5)]])
                md = quiet_build(mine)
                mds = [quiet_build(dict(mine, eqs=r['eqs'])) for r in regimes(spec, case['cons'])[1:]]
            alt = quiet_build(other)
        except Exception: return
        mds = list(mds); mds[j] = alt
        mon.tally('mismatched regime:' + kind)
        try: fun(md, *mds, constraint=Constraint(con, endog=md.endog, params=md.params, exog=md.stoch), **kw)
        except Exception as err: mon.true('a model that does not match is refused', True); mon.tally('refused:' + type(err).__name__); return
        mon.fail('a model that does not match is taken for a regime', f'{kind}: {other["endog"]} {other["stoch"]} {[a for a, _ in other["params"]]} against {spec["endog"]} {spec["stoch"]} {[a for a, _ in spec["params"]]}')

    def run(self, case, mon):
        self.mon = mon
        spec, cons = case['spec'], case['cons']
        rng = rng_for(self.prop, case['seed'])
        regs = regimes(spec, cons)
        d, fo = oracle.analyse(spec)
        G, H = fo.G, fo.H
        n, q = len(spec['endog']), len(spec['stoch'])
        md = quiet_build(spec)
        near_ss(md, spec, 1e-6)
        if case['before'] == 1: quiet_solve(md, 1)
        if case['before'] == 2: quiet_solve(md, 2)
        sexprs = [{int(i): ex.show(x) for i, x in c['exprs'].items()} for c in cons]
        if self.k == 1: exprs = sexprs[0] if rng.random() < .6 else [sexprs[0]]
        else: exprs = [sexprs[0], sexprs[1], {int(i): ex.show(x) for i, x in cons[0]['both'].items()} if 'both' in cons[0] else {**sexprs[0], **sexprs[1]}]
        if 'both' in cons[0]: mon.tally('both binding: a regime of its own')
        if self.k == 1 and isinstance(exprs, list): mon.tally('list of one regime')
        U = np.array(case['U'], dtype=float)
        form, exog = case['form'], case['exog']
        at = [0] if exog is None else [spec['stoch'].index(t) for t in ([exog] if isinstance(exog, str) else exog)]
        arg = U
        if form in ('default', 'name'): arg = U[:, 0]
        if form == 'random': arg = len(U) if rng.random() < .5 else (len(U), 1)
        if rng.random() < .4 and form != 'random': arg = arg.tolist()
        init = np.round(rng.normal(size=n)*.3, 3) if case['init'] else None
        keep = (np.array(arg, copy=True) if not isinstance(arg, (int, tuple)) else None, None if init is None else init.copy())
        P = case['periods'] or len(U)
        np.random.seed(case['seed'] % (1 << 31))
        try: sol, told = self.solved(md, case, arg, case['periods'], init, cons, exprs, case['max_iter'])
        except Skip: raise
        except Exception as err:
            # some regimes cannot be linearised as models of their own; that is said loudly
            settled = Search(spec, cons, regs, G).run(np.zeros(n) if init is None else init, self.full(U, at, q), P, case['max_iter'])
            if type(err).__name__ in ('LinAlgError', 'ModelIdentificationError') or 'infs or NaNs' in str(err) or settled is None: raise Skip(f'refused: {type(err).__name__}')
            raise
        paths, shocks = np.array(sol.paths, dtype=float), np.array(sol.shocks, dtype=float)
        if keep[0] is not None: mon.true('arguments are left alone', np.array_equal(np.asarray(arg), keep[0]) and (init is None or np.array_equal(init, keep[1])), 'shocks or initial values were changed')
        if not mon.equal('shape of the path', paths.shape, (P, n)): return
        if shocks.ndim == 1: shocks = shocks[:, None]
        if not mon.equal('shape of the recorded shocks', shocks.shape, (P, len(at))): return
        K = len(U)
        if form == 'random': U = shocks[:K].copy()
        mon.close('recorded shocks', shocks, np.vstack([U, np.zeros((P - K, len(at)))]), 1e-12)
        F = self.full(U, at, q)
        y0 = np.zeros(n) if init is None else init
        S = Search(spec, cons, regs, G)
        want = S.run(y0, F, P, case['max_iter'])
        mon.tally('regimes built as models' if case.get('direct') else 'regimes by equations', 'restrained' if case.get('restrained') else 'not restrained')
        mon.tally('search of the oracle: ' + ('settles' if want else 'does not'), 'form:' + form, 'told' if told else 'silent')

        def verdict(fail, told):
            """a path that is no solution must have been announced"""
            if told:
                mon.tally('not settled, announced')
                if want is not None: mon.fail('did not find the solution', f'warned {told[:2]} where the search settles; {fail}')
                return
            mon.fail(*fail)
        if told and want is not None:
            verdict(None, told); return
        # the last shock's expected path is recorded in full; earlier ones by solving without the later shocks
        got = follow(mon, spec, cons, regs, paths, K - 1, y0, F[K-1], f'after shock {K - 1}')
        if isinstance(got, tuple): verdict(got, told); return
        for k in range(1, K) if K < 6 else sorted(int(t) for t in rng.permutation(K - 1)[:4] + 1):
            try: s2, told2 = self.solved(md, case, U[:k, 0] if np.ndim(arg) == 1 or (form == 'random') else U[:k], P, init, cons, exprs, case['max_iter'])
            except Exception: mon.skip('refused'); continue        # loud, and the same regimes were solved above
            p2 = np.array(s2.paths, dtype=float)
            if told2 or told: mon.tally('not settled, announced'); break
            mon.close('later shocks are not expected', p2[:k], paths[:k], 1e-9, what=f'rows before shock {k}')
            g2 = follow(mon, spec, cons, regs, p2, k - 1, y0, F[k-1], f'after shock {k - 1}')
            if isinstance(g2, tuple): verdict(g2, told2); return
            mon.true('earlier solutions stay as they were', np.array_equal(sol.paths, paths), 'a later solve changed an earlier path')
        bound = sorted({b for g in got for b in g if len(g) == 1})
        slackness = want is not None and not S.binds.any()
        if slackness:
            y, lin = y0, []
            for t in range(P):
                y = G @ y + (H @ F[t] if t < K else 0)
                lin.append(y)
            mon.close('never binding: the linear path', paths, lin, 1e-8)
            mon.tally('never binds')
        if want is not None: mon.close('path of the independent search', paths, want[0], 1e-7)
        if self.k == 2 and want is not None and not told:
            # one constraint only
            for j in (0, 1):
                if S.binds[1-j] or not S.binds[j]: continue
                try: s1, told1 = self.solved(md, case, arg if form != 'random' else U[:, 0], P, init, [cons[j]], sexprs[j], 20)
                except Exception: continue
                if told1: continue
                one = Search(spec, [cons[j]], regimes(spec, [cons[j]]), G).run(y0, F, P, 20)
                if one is None or np.abs(one[0] - want[0]).max() > 1e-9: continue
                mon.close('only one binds: the path under that constraint alone', paths, np.array(s1.paths, dtype=float), 1e-8)
                mon.tally('only one binds')
        tally_model(mon, spec)
        if want is not None:
            for h in want[1]: mon.tally('succession:' + '-'.join(pattern(h)[:5]))
        for c in cons: mon.tally('constraint:' + c['kind'])
        for b in bound: mon.tally('regime:' + ''.join('01'[t] for t in b))
        mon.tally('settled silently' if not told else 'announced')
        if not told: mon.seen(shape_key(spec), form, K, tuple(bound), [c['kind'] for c in cons], case['init'], None if want is None else S.binds.tolist())

    @staticmethod
    def full(U, at, q):
        F = np.zeros((len(U), q))
        F[:, at] = U
        return F


class C19(OccCheck):
    prop = 'C19'
    k = 1
    rule = ('random models (1-3 base variables) with a constrained variable: floor, ceiling or multiplier form, in levels with any steady state, feedback into the model at any date, '
            'alternative regimes with lags, leads, nonlinear or several changed equations; shocks by default, by name, several, drawn, large and small; every period of every expected '
            'path is judged by the residuals of the regimes and by the conditions; distinct by structure, regimes visited, form of the shocks')
    sizes = dict(quick=700, thorough=10000)


class C20(OccCheck):
    prop = 'C20'
    k = 2
    rule = ('as C19 with two constrained variables and regimes for each and for both; all four regimes are visited; distinct by structure, regimes visited, form of the shocks')
    sizes = dict(quick=320, thorough=5000)


CHECKS = [C19, C20]
