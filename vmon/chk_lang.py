"""C01-C05: expressions, model files, layout, malformed input, calibration"""
import copy, glob, json, math, os, pathlib, signal, tempfile
import numpy as np
from vmon import ex, gen, oracle, ref
from vmon.rt import Check, Skip, Hang, rng_for
from vmon.common import *
from vmon.chk_struct import random_expr

REPO = os.environ.get('VMON_REPO', '/repo')


# ------------------------------------------------------------------ conditioning

def noisy(x, env, rng, eps=1e-12):
    """value with every inexact intermediate result perturbed: how well determined it is in floating point"""
    k = x[0]
    if k in ('n', 'p', 'e', 'v'): return ex.value(x, env)
    if k in ('neg', 'pos'):
        r = noisy(x[1], env, rng, eps)
        return -r if k == 'neg' else r
    if k == 'f': r = ex._f1(x[1], noisy(x[2], env, rng, eps))
    else:
        a, b = noisy(x[1], env, rng, eps), noisy(x[2], env, rng, eps)
        r = ex.value([k, ['p', 'a'], ['p', 'b']], {'a': a, 'b': b})
    if isinstance(r, bool) or r == round(r): return r
    return r*(1 + eps*rng.uniform(-1, 1))


def tolerance(x, env, rng):
    """tolerance for a computed value of x, None where it is ill-determined"""
    w = ex.value(x, env)
    if isinstance(w, bool): return 0
    if not math.isfinite(w) or abs(w) > 1e9: return None
    try: d = max(abs(noisy(x, env, rng) - w) for _ in range(4))
    except (ex.Undefined, OverflowError): return None
    t = 1e3*d + 1e-11*max(1.0, abs(w))
    return t if t < 1e-6*max(1.0, abs(w)) else None


NUMS = ['0', '1', '2', '3', '10', '0.5', '.5', '2.', '1.5', '0.25', '007', '100', '3.14159', '1.0', '0.', '12.75']


def leafed(rng, names, k):
    L = [ex.p(s) for s in names]
    return L + [['n', NUMS[rng.integers(len(NUMS))]] for _ in range(k)]


def arithmetic(rng, leaves, depth):
    """operators without functions, deep: what precedence is about"""
    if depth == 0 or rng.random() < .1: return leaves[rng.integers(len(leaves))]
    k = rng.integers(9)
    a = arithmetic(rng, leaves, depth - 1)
    if k == 0: return ['neg', a]
    if k == 1: return ['pos' if rng.random() < .4 else 'neg', a]
    b = arithmetic(rng, leaves, depth - 1)
    if k in (2, 3): return ['^', a, b]
    return [['+', '-', '*', '/', '-'][k - 4], a, b]


class C01(Check):
    prop = 'C01'
    rule = ('random expressions over numbers, names, all operators and functions, depth up to 7, printed with minimal and with random redundant parentheses and '
            'white space; read through the evaluator (both power spellings), parameter definitions, arrays, comparisons and model equations and compared with '
            'an independent evaluation; distinct by the nesting of operators')
    assumptions = ['the expression has a finite real value that is determined in floating point arithmetic (otherwise not judged)']
    sizes = dict(quick=1500, thorough=60000)
    names = ['x', 'y', 'zeta', 'a1', '_u', 'E', 'e', 'exp_', 'log2', 'xx', 'sinx', 'i']

    def fixed(self, tier):
        P, N, f = ex.p, lambda s: ['n', s], ex.f
        x, y, z = P('x'), P('y'), P('zeta')
        L = [['-', ['-', x, y], z], ['-', x, ['-', y, z]], ['/', ['/', x, y], z], ['/', x, ['*', y, z]], ['*', ['/', x, y], z], ['^', x, ['^', y, z]], ['^', ['^', x, y], z],
             ['neg', ['^', x, N('2')]], ['^', ['neg', x], N('2')], ['^', x, ['neg', y]], ['^', x, ['neg', ['^', y, z]]], ['*', ['neg', x], y], ['neg', ['*', x, y]], ['+', ['neg', x], y],
             ['-', x, ['neg', y]], ['neg', ['neg', x]], ['*', x, ['neg', y]], ['/', x, ['neg', ['^', y, N('2')]]], ['+', x, ['*', y, z]], ['*', ['+', x, y], z], ['pos', ['neg', x]],
             ['^', N('2'), ['^', N('3'), N('2')]], ['-', N('2'), ['+', N('3'), N('4')]], ['*', N('2'), ['^', x, N('3')]], ['^', ['*', N('2'), x], N('3')],
             ['neg', ['f', 'exp', x]], ['^', f('exp', x), N('2')], ['*', f('log', x), f('sqrt', y)], ['^', N('2'), f('sin', x)], ['-', ['*', x, y], ['/', y, z]]]
        for fn in ex.FUNCS1: L.append(f(fn, ['*', N('.5'), ['p', 'E']]))
        return [dict(x=x, env=dict(x=1.7, y=.6, zeta=2.3, E=.9), seed=j) for j, x in enumerate(L)]

    def gen(self, rng, i, tier):
        names = [self.names[k] for k in rng.permutation(len(self.names))[:int(rng.integers(1, 5))]]
        env = {s: float(np.round(rng.choice([rng.uniform(.1, 3), rng.uniform(-3, 3), float(rng.integers(-3, 5))]), 3)) for s in names}
        leaves = leafed(rng, names, int(rng.integers(1, 4)))
        for _ in range(30):
            d = int(rng.integers(1, 8))
            x = arithmetic(rng, leaves, min(d, 5)) if rng.random() < .5 else random_expr(rng, leaves, d)
            if rng.random() < .15: x = [['<', '<=', '>', '>=', '=='][rng.integers(5)], x, random_expr(rng, leaves, 2) if rng.random() < .8 else x]
            try:
                if tolerance(x, env, rng) is not None and sum(1 for _ in ex.walk(x)) < 400: break
            except (ex.Undefined, OverflowError): pass
        else: return None
        return dict(x=x, env=env, seed=int(rng.integers(1 << 30)))

    def run(self, case, mon):
        from pynare.parsing import evaluate, parse_string
        x, env = case['x'], case['env']
        rng = rng_for('c01', case['seed'])
        want = ex.value(x, env)
        comp = x[0] in ('<', '<=', '>', '>=', '==')
        if comp:
            # sides that differ only by rounding are not compared, unless they are the same expression
            a, b = ex.value(x[1], env), ex.value(x[2], env)
            ta, tb = tolerance(x[1], env, rng), tolerance(x[2], env, rng)
            if ta is None or tb is None: raise Skip('ill-determined')
            if x[1] != x[2] and abs(a - b) <= ta + tb and not (a == b and float(a).is_integer()): raise Skip('ill-determined')
            tol = 0
        else:
            tol = tolerance(x, env, rng)
            if tol is None: raise Skip('ill-determined')

        def same(mech, got, text):
            mon.events[mech] += 1
            if comp: ok = bool(got) == bool(want)
            else:
                try: ok = abs(float(got) - want) <= tol
                except (TypeError, ValueError): ok = False
            if not ok: mon.fail(mech, f'{text}  with {env}: got {got!r}, expected {want!r} (tolerance {tol:g})')

        plain = ex.show(x)
        styles = [plain] + [ex.show(x, ex.Style(rng, paren=float(rng.choice([0, .2, .6])), space=float(rng.choice([0, .3, .9])), ws=(' ', '\t', '\n', '  ')))
                            for _ in range(3)]
        for t in styles: same('value of the text', evaluate(t, env), t)
        same('value with the other power sign', evaluate(ex.show(x, ex.Style(power='**')), env, exp='python'), plain)
        tree = parse_string(styles[1])
        same('value of the parsed text', evaluate(tree, env), styles[1])
        same('value of the parsed text, again', evaluate(tree, env), styles[1])

        # arrays elementwise
        if env and not comp:
            k = sorted(env)[0]
            col = []
            vals = [env[k], env[k]*.9, env[k] + .05]
            for v in vals:
                try: col.append((ex.value(x, dict(env, **{k: v})), tolerance(x, dict(env, **{k: v}), rng)))
                except (ex.Undefined, OverflowError): col.append((None, None))
            if any(c[0] == 'p' and c[1] == k for c in ex.walk(x)):
                got = np.broadcast_to(np.asarray(evaluate(plain, dict(env, **{k: np.array(vals)})), dtype=float), (3,))
                for g, (w, t) in zip(got, col):
                    if t is None: continue
                    mon.event('value of an array element')
                    if not abs(g - w) <= t: mon.fail('value of an array element', f'{plain}: {g} instead of {w}')
        if comp:
            mon.tally('comparison:' + x[0]); mon.seen('comp', x[0], self.skeleton(x[1])); return

        # parameter definitions
        from pynare.core.variables import ModelCalibration
        from pynare import Model
        defs = [(k, v) for k, v in env.items()] + [('zz', styles[2])]
        defs = dict(defs[j] for j in rng.permutation(len(defs)))
        same('value of the parameter definition', ModelCalibration(defs)['zz'], styles[2])

        # model equations: q = expression in the current values of variables that are constant
        if len(env) and not any(n.startswith('_') for n in env) and 'q' not in env and all(abs(v) < 50 for v in env.values()):
            if rng.random() < .35: self.in_model(x, env, want, rng, same, mon)
        for c in ex.walk(x): mon.tally('op:' + (c[1] if c[0] == 'f' else c[0]))
        mon.seen(self.skeleton(x))

    @staticmethod
    def skeleton(x):
        if x[0] in 'npev' and len(x[0]) == 1: return '.'
        if x[0] == 'f': return f'{x[1]}({C01.skeleton(x[2])})'
        return f'{x[0]}(' + ','.join(C01.skeleton(c) for c in x[1:]) + ')'

    def in_model(self, x, env, want, rng, same, mon):
        from pynare import Model
        names = sorted(env)
        # some names are variables (at random dates), the others parameters
        isvar = {k: bool(rng.random() < .6) for k in names}
        if not any(isvar.values()): isvar[names[0]] = True
        vs = [k for k in names if isvar[k]]
        date = {k: int(rng.choice([-1, 0, 0, 1])) for k in vs}

        def sub(y):
            if y[0] == 'p': return ['v', y[1], date[y[1]]] if isvar[y[1]] else y
            return [y[0]] + [sub(c) if isinstance(c, list) else c for c in y[1:]]
        X = sub(x)
        c = {k: env[k] for k in vs}
        eqs = [['=', ex.v(k), ex.add(ex.mul(ex.n(.5), ex.v(k, -1)), ex.add(ex.n(.5*c[k]), ex.e('uu')))] for k in vs]
        homog = rng.random() < .5
        eqs.append(ex.sub(ex.v('q'), X) if homog else ['=', ex.v('q'), X])
        texts = [ex.show(q, ex.Style(rng, paren=.2, space=.4)) for q in eqs]
        params = {k: env[k] for k in names if not isvar[k]}
        try:
            md = Model(endog=vs + ['q'], stoch=['uu'], params=params, exprs=texts, initial=dict(c, q=want))
            dyn, st = md.dynamic_repr, md.steady_repr
        except Exception:
            # not differentiable there, for instance
            mon.tally('model route refused'); return
        spec = dict(endog=vs + ['q'], stoch=['uu'], eqs=eqs)
        T = oracle.Timing(spec['endog'], eqs)
        cols = [(k, d) for d, inc in ((-1, T.lag), (0, T.cur), (1, T.lead)) for j, k in enumerate(spec['endog']) if inc[j]]
        at = {}
        for k, d in cols:
            at[(k, d)] = 0.0 if k == 'q' else env[k]
        r = dyn([at[kd] for kd in cols] + [0.0])
        same('value in a model equation', -np.asarray(r, dtype=float)[-1], texts[-1])
        r = st([c[k] for k in vs] + [0.0])
        same('value in a static equation', -np.asarray(r, dtype=float)[-1], texts[-1])


# -------------------------------------------------------------------- comparing models

def points(md_spec, rng, k=3):
    """random values of dated variables and shocks"""
    T = oracle.Timing(md_spec['endog'], md_spec['eqs'])
    cols = [(y, d) for d, inc in ((-1, T.lag), (0, T.cur), (1, T.lead)) for j, y in enumerate(md_spec['endog']) if inc[j]]
    out = []
    for i in range(k):
        lo, hi = [(.2, 2.5), (.5, 1.5), (-2, 2)][i % 3]
        out.append([float(v) for v in np.round(rng.uniform(lo, hi, len(cols) + len(md_spec['stoch'])), 4)])
    return cols, out


def judge_model(md, spec, vals, sigma, mon, rng, bounds=None, what='', k=3):
    """the built model is the one `spec` (with parameter values `vals` and covariances `sigma`) states"""
    mon.equal('endogenous variables', [str(s) for s in md.endog.names], list(spec['endog']), what)
    mon.equal('shocks', [str(s) for s in md.stoch.names], list(spec['stoch']), what)
    pn = [q if isinstance(q, str) else q[0] for q in spec['params']]
    mon.equal('parameters', sorted(md.params), sorted(pn), what)
    for q in pn:
        mon.event('parameter value')
        g, w = md.params[q], vals[q]
        if not abs(float(g) - w) <= 1e-10*max(1, abs(w)): mon.fail('parameter value', f'{what}: {q} is {g!r}, stated {w!r}')
    S = np.asarray(sigma, dtype=float).reshape(len(spec['stoch']), len(spec['stoch']))
    mon.close('shock covariances', md.sigma, S, 1e-10, what=what)
    if bounds is not None:
        init, term, hist = (bounds.get(b, {}) for b in ('initval', 'endval', 'histval'))
        other = lambda y: y in term or y in hist
        mon.close('starting values', md.initial, [init.get(y, np.nan if other(y) else 0.0) for y in spec['endog']], 1e-10, what=what)
        mon.close('terminal values', md.terminal, [term.get(y, np.nan) for y in spec['endog']], 1e-10, what=what)
        mon.close('historical values', md.historical, [hist.get(y, np.nan) for y in spec['endog']], 1e-10, what=what)
    if not mon.equal('number of equations', len(md.exprs), len(spec['eqs']), what): return
    cols, pts = points(spec, rng, k)
    for pt in pts:
        env = dict(vals)
        for kd, v in zip(cols, pt): env[kd] = v
        for s, v in zip(spec['stoch'], pt[len(cols):]): env[s] = v
        w, t = residuals(spec, env, rng)
        got = np.asarray(md.dynamic_repr(pt), dtype=float)
        compare(mon, 'dynamic residuals', got, w, t, what, spec)
        # shocks may be left out
        env0 = dict(env, **{s: 0.0 for s in spec['stoch']})
        w, t = residuals(spec, env0, rng)
        if spec['stoch']: compare(mon, 'dynamic residuals without shocks', np.asarray(md.dynamic_repr(pt[:len(cols)]), dtype=float), w, t, what, spec)
        sv = {}
        for j, y in enumerate(spec['endog']): sv[y] = pt[j % len(pt)] + .01*j
        env1 = dict(env0)
        for y in spec['endog']:
            for d in (-1, 0, 1): env1[(y, d)] = sv[y]
        w, t = residuals(spec, env1, rng)
        compare(mon, 'static residuals', np.asarray(md.steady_repr([sv[y] for y in spec['endog']]), dtype=float), w, t, what, spec)


def residuals(spec, env, rng):
    w, t = [], []
    for q in spec['eqs']:
        r = ex.residual(q)
        try:
            w.append(ex.value(r, env)); t.append(tolerance(r, env, rng))
        except (ex.Undefined, OverflowError): w.append(0.0); t.append(None)
    return w, t


def compare(mon, mech, got, want, tol, what, spec):
    mon.event(mech)
    if got.shape != (len(want),):
        mon.fail(mech, f'{what}: shape {got.shape} for {len(want)} equations'); return
    for i, (g, w, t) in enumerate(zip(got, want, tol)):
        if t is None: continue
        mon.event('residuals compared')
        if not abs(g - w) <= max(t, 1e-9*abs(w)):
            mon.fail(mech, f'{what}: equation {i}: {ex.show(spec["eqs"][i])}: residual {g!r}, expected {w!r}'); return


def wild(rng, leaves, depth):
    """any expression: functions, or operators nested in every way"""
    if depth and rng.random() < .4: return arithmetic(rng, leaves, min(depth, 3))
    return random_expr(rng, leaves, depth)


# ------------------------------------------------------------------ writing model files

def rich_spec(rng, solvable=True):
    """a model with definitions, local definitions, shock expressions and boundary values"""
    nl = bool(rng.random() < .6)
    spec = gen.gen_model(rng, n=int(rng.integers(1, 6)), ns=int(rng.integers(0, 4)), nonlinear=nl)
    taken = set(spec['endog']) | set(spec['stoch']) | {k for k, _ in spec['params']}
    pn = gen.names(rng, gen.PARAMS + ['b1', 'c_', 'kappa', 'nu_', 'S_A', 'PHI'], 12, taken)
    spec['helpers'] = []
    have = [k for k, _ in spec['params']]
    fine = lambda v: math.isfinite(v) and abs(v) < 1e4 and (v == 0 or abs(v) > 1e-4)

    def defined(pool, tries=20):
        vals = {}
        for k, x in prog: vals[k] = ex.value(x, vals)
        for _ in range(tries):
            leaves = [ex.p(s) for s in pool] + [['n', NUMS[rng.integers(len(NUMS))]] for _ in range(2)]
            x = wild(rng, leaves, int(rng.integers(0, 4)))
            try:
                if fine(ex.value(x, vals)) and tolerance(x, vals, rng) is not None: return x
            except (ex.Undefined, OverflowError, KeyError): pass
        return ['n', '0.7']
    # a program of assignments: parameters and helper variables
    prog = [[k, x] for k, x in spec['params']]
    for k in pn[:int(rng.integers(0, 5))]:
        x = defined([a for a, _ in prog])
        prog.append([k, x])
        if rng.random() < .25: spec['helpers'].append(k)
    spec['params'] = [[k, x] for k, x in prog if k not in spec['helpers']]
    spec['prog'] = prog
    free = pn[5:]
    pnames = [k for k, _ in spec['params']]
    # local definitions used in equations
    for k in free[:int(rng.integers(0, 3))]:
        loc = [a for a, _ in spec['locals']]
        vals = gen_vals(spec)
        for _ in range(20):
            x = wild(rng, [ex.p(s) for s in pnames + loc] + [['n', '2'], ['n', '.3']], 2)
            try:
                if fine(ex.value(x, vals)) and tolerance(x, vals, rng) is not None: break
            except (ex.Undefined, OverflowError, KeyError): pass
        else: x = ['n', '1.5']
        spec['locals'].append([k, x])
    vals = gen_vals(spec)
    # terms without effect on the solution, written with the definitions
    loc = [a for a, _ in spec['locals']]
    if not solvable or rng.random() < .7:
        for _ in range(int(rng.integers(0, 6))):
            j = int(rng.integers(len(spec['eqs'])))
            leaves = [ex.p(s) for s in loc + pnames[-3:]] + [['n', '2']]
            d = sorted({(a, int(b)) for q in spec['eqs'] for a, b in ex.dated(q)})
            leaves += [ex.v(*d[rng.integers(len(d))]) for _ in range(2)]
            env = dict(vals)
            for y in spec['endog']:
                for t in (-1, 0, 1): env[(y, t)] = spec['ss'][y]
            for _ in range(10):
                R = wild(rng, leaves, int(rng.integers(2, 4)))
                try:
                    r = ex.value(R, env)
                    dd = oracle.Deriv(dict(spec, eqs=[ex.mul(ex.n(.001), R)]), [spec['ss'][y] for y in spec['endog']])
                    if fine(r) and abs(r) < 50 and np.isfinite(dd.jac).all() and np.abs(dd.jac).max() < .05: break
                except Exception: pass
            else: continue
            q = spec['eqs'][j]
            term = ex.mul(ex.n(.001), R)
            spec['eqs'][j] = ['=', q[1], ex.add(q[2], term)] if q[0] == '=' else ex.sub(q, term)
    # shock moments through expressions
    sh = []
    for s in spec['shocks']:
        x = s[-1]
        hv = [k for k, _ in prog if .2 < abs(gen_vals(spec, True).get(k, 0)) < 5]
        if hv and rng.random() < .4:
            h = hv[rng.integers(len(hv))]; v = float(x[1]) if x[0] == 'n' else -float(x[1][1])
            u = v/gen_vals(spec, True)[h]
            x = ex.mul(ex.n(float(np.round(u, 9))), ex.p(h))
            if s[0] == 'var' and ex.value(x, gen_vals(spec, True)) <= 0: x = s[-1]
        elif rng.random() < .2: x = ['^', x, ['n', '1']]
        sh.append(s[:-1] + [x])
    spec['shocks'] = sh
    # boundary values
    spec['bounds'] = {}
    allv = outer_vals(spec)
    for b in ('initval', 'endval', 'histval'):
        if rng.random() < (.75 if b == 'initval' else .2):
            L, d = [], {}
            for y in [spec['endog'][k] for k in rng.permutation(len(spec['endog']))]:
                if b != 'initval' and rng.random() < .3: continue
                v = spec['ss'][y]
                if d and rng.random() < .3:
                    z = list(d)[rng.integers(len(d))]
                    x = ex.add(ex.p(z), ex.n(float(np.round(v - d[z], 6))))
                elif allv and rng.random() < .3:
                    z = list(allv)[rng.integers(len(allv))]
                    x = ex.add(ex.n(float(np.round(v, 6))), ex.mul(ex.n(0), ex.p(z)))
                else: x = ex.n(float(v))
                L.append([y, x]); d[y] = ex.value(x, {**allv, **d})
            spec['bounds'][b] = L
    if ('endval' in spec['bounds'] or 'histval' in spec['bounds']):
        # without starting values nothing could be computed
        if 'initval' not in spec['bounds']: spec['bounds']['initval'] = []
        got = {y for y, _ in spec['bounds']['initval']}
        spec['bounds']['initval'] += [[y, ex.n(float(spec['ss'][y]))] for y in spec['endog'] if y not in got]
    return spec


def gen_vals(spec, helpers=False):
    vals = {}
    for k, x in spec.get('prog', spec['params']): vals[k] = ex.value(x, vals)
    for k, x in spec.get('locals', []): vals[k] = ex.value(x, vals)
    if not helpers:
        for k in spec.get('helpers', []): vals.pop(k, None)
    return vals


def outer_vals(spec):
    """what is known outside of the model block"""
    allv = gen_vals(spec, True)
    for k, _ in spec.get('locals', []): allv.pop(k, None)
    return allv


def bound_vals(spec):
    allv = outer_vals(spec)
    out = {}
    for b, L in spec['bounds'].items():
        d = out[b] = {}
        for y, x in L: d[y] = ex.value(x, {**allv, **d})
    return out


def rich_sigma(spec):
    vals = gen_vals(spec, True)
    n = len(spec['stoch']); S = np.eye(n); ix = {s: i for i, s in enumerate(spec['stoch'])}
    for s in spec['shocks']:
        if s[0] in ('var', 'std'):
            v = ex.value(s[-1], vals)
            S[ix[s[1]], ix[s[1]]] = v if s[0] == 'var' else v*v
    for s in spec['shocks']:
        if s[0] in ('corr', 'cov'):
            i, j, v = ix[s[1]], ix[s[2]], ex.value(s[-1], vals)
            S[i, j] = S[j, i] = v if s[0] == 'cov' else v*math.sqrt(S[i, i]*S[j, j])
    return S


def write(spec, rng, plain=False):
    """statements of a file, in one of the orders the language allows"""
    R = (lambda p: False) if plain else (lambda p: bool(rng.random() < p))
    st = ex.Style() if plain else ex.Style(rng, paren=float(rng.choice([0, .1, .4])), space=float(rng.choice([0, .3])))
    def decl(kind, names):
        # possibly several statements for one kind
        names = list(names); out = []
        while names:
            k = len(names) if not R(.25) else int(rng.integers(1, len(names) + 1))
            sep = ', ' if R(.5) else ' '
            out.append(f'{kind} ' + sep.join(names[:k]) + ';'); names = names[k:]
        return out
    D = [decl('var', spec['endog']), decl('varexo', spec['stoch']), decl('parameters', [k for k, _ in spec['params']])]
    P = [f'{k} = {ex.show(x, st)};' for k, x in spec.get('prog', spec['params'])]
    if R(.5): D = [D[i] for i in rng.permutation(3)]
    pre = []
    if R(.3) and P:
        # declarations and assignments interleaved
        streams = [s for s in D + [P] if s]
        while streams:
            s = streams[int(rng.integers(len(streams)))]
            pre.append(s.pop(0))
            streams = [s for s in streams if s]
    else: pre = sum(D, []) + P
    L = pre
    L.append('model' + (['(linear)', '(block, bytecode)', '(differentiate_forward_vars=all)', '(a="b c", d=2*3)'][int(rng.integers(4))] if R(.2) else '') + ';')
    for k, x in spec.get('locals', []): L.append(f'# {k} = {ex.show(x, st)};')
    for j, q in enumerate(spec['eqs']):
        tag = ['[name=\'eq\'] ', '[dynamic] ', '[name="x = y; end;", mcp=\'z > 0\'] ', '[static, name=\'a\']\n'][int(rng.integers(4))] if R(.15) else ''
        if q[0] == '=' and R(.15): q = ex.sub(q[1], q[2])
        elif q[0] != '=' and R(.15): q = ['=', q, ['n', '0']]
        elif q[0] == '=' and R(.1): q = ['=', ex.sub(q[1], q[2]), ['n', '0']]
        L.append('  ' + tag + ex.show(q, st) + ';')
    L.append('end;')
    blocks = []
    for b, xs in spec.get('bounds', {}).items():
        a = ''
        if b == 'endval' or R(.1): a = '(all_values_required)' if R(.2) else ''
        blocks.append([b + a + ';'] + [f'  {y} = {ex.show(x, st)};' for y, x in xs] + ['end;'])
    if spec['shocks'] or R(.1): blocks.append(['shocks' + ('(overwrite)' if R(.1) else '') + ';'] + gen.shock_lines(spec['shocks'], st) + ['end;'])
    if R(.5): blocks = [blocks[i] for i in rng.permutation(len(blocks))]
    return L + sum(blocks, [])


def file_model(text, how='path', suffix='.mod'):
    from pynare import Model
    if how == 'outline':
        from pynare.parsing import read_model
        return Model.from_outline(read_model(text, 'dynare'))
    fd, path = tempfile.mkstemp(suffix=suffix, prefix='vmon')
    try:
        with os.fdopen(fd, 'w', newline='', encoding='utf-8') as fh: fh.write(text)
        return Model.from_path(pathlib.Path(path) if how == 'Path' else path)
    finally:
        os.unlink(path)


def linear(spec):
    try: d = oracle.Deriv(dict(spec, params=[[k, ex.n(v)] for k, v in gen_vals(spec).items()], locals=[]), [.37 + .11*k for k, _ in enumerate(spec['endog'])])
    except Exception: return False
    return np.abs(d.hess).max() == 0


def numerical(err, spec):
    """refusals due to the numerical search of a nonlinear model, not to the reading of the file"""
    return not linear(spec) and (type(err).__name__ in ('ModelIdentificationError', 'LinAlgError') or any(t in str(err) for t in ('infs or NaNs', 'domain', 'ill-conditioned')))


def usable(spec):
    """building the model succeeds when its linearisation is well behaved at the stated starting values"""
    if not oracle.classes_ok(spec): return False
    try:
        d = oracle.Deriv(dict(spec, params=[[k, ex.n(v)] for k, v in gen_vals(spec).items()], locals=[]), [spec['ss'][y] for y in spec['endog']])
        z = d
        for j in range(3):
            r = np.random.default_rng(j)
            p = oracle.Deriv(dict(spec, params=[[k, ex.n(v)] for k, v in gen_vals(spec).items()], locals=[]), [spec['ss'][y] + 1e-3*r.normal() for y in spec['endog']])
            if not np.isfinite(p.f).all(): return False
        if not spec.get('bounds', {}).get('initval'):
            # the search starts at zero
            z = oracle.Deriv(dict(spec, params=[[k, ex.n(v)] for k, v in gen_vals(spec).items()], locals=[]), [0.0 for _ in spec['endog']])
    except Exception: return False
    return np.isfinite(d.jac).all() and np.abs(d.jac).max() < 1e3 and np.isfinite(z.jac).all() and np.isfinite(z.f).all()


class C02(Check):
    prop = 'C02'
    rule = ('random models written as files in every order and form the grammar allows (interleaved declarations and assignments, helper and local definitions, tags, '
            'boundary blocks, all shock statements, expressions everywhere) and the shipped files; the built model is compared with what the writer meant (or an '
            'independent reader says): names, values, covariances, boundary values and equation residuals at random points; distinct by statements used and structure')
    assumptions = ['each parameter, boundary value and moment is assigned once; a shock has at most one partner per pair; no deterministic shocks (documented as unsupported)']
    sizes = dict(quick=900, thorough=30000)

    def fixed(self, tier):
        out = []
        for f in sorted(glob.glob(REPO + '/pynare/examples/pynare/*') + glob.glob(REPO + '/tests/models/*')):
            if f.endswith(('.mod', '.txt')): out.append(dict(file=f, seed=1))
        out += [dict(kind='partners', seed=s) for s in range(30)] + [dict(kind='numpy', seed=s) for s in range(10)]
        return out

    def gen(self, rng, i, tier):
        for _ in range(20):
            spec = rich_spec(rng)
            if usable(spec): break
        else: return None
        return dict(spec=spec, seed=int(rng.integers(1 << 30)), how=['path', 'Path', 'outline', 'path'][i % 4], suffix=['.mod', '.txt', '.dyn'][i % 3])

    def run(self, case, mon):
        rng = rng_for('c02', case['seed'])
        if 'file' in case:
            from pynare import Model
            try: r = ref.read(open(case['file']).read())
            except (ref.Bad, ref.Unsure) as e: raise Skip('not within the language: ' + os.path.basename(case['file']))
            for p in {case['file'], os.path.basename(case['file'])} if 'examples' in case['file'] else [case['file']]:
                md = Model.from_path(p)
                judge_model(md, dict(r, params=r['params']), r['vals'], r['sigma'], mon, rng, bounds=r['bounds'], what=p)
            mon.seen(case['file']); mon.tally('shipped file'); return
        if case.get('kind') == 'partners': return self.partners(rng, mon)
        if case.get('kind') == 'numpy': return self.numpy_moments(rng, mon)
        spec = case['spec']
        lines = write(spec, rng)
        text = '\n'.join(lines) + '\n'
        if rng.random() < .4:
            text = weave(ref.tokens(text), rng, float(rng.choice([.05, .2, .6]))); mon.tally('comments and layout')
        try: md = file_model(text, case['how'], case['suffix'])
        except Exception as err:
            if numerical(err, spec): raise Skip('the steady state was not found')
            mon.fail('well-formed file refused', f'{type(err).__name__}: {err}\n{text}'); return
        judge_model(md, spec, gen_vals(spec), rich_sigma(spec), mon, rng, bounds=bound_vals(spec), what=text)
        # the independent reader agrees with the writer: keeps both oracles honest
        try:
            r = ref.read(text)
            assert r['endog'] == spec['endog'] and np.allclose(np.array(r['sigma'], dtype=float).reshape(len(spec['stoch']), -1 if spec['stoch'] else 0), rich_sigma(spec), atol=1e-9)
        except ref.Unsure: pass
        for nm, c in (('helpers', spec['helpers']), ('locals', spec['locals']), ('tags', '[' in text), ('no shocks', not spec['stoch'])):
            if c: mon.tally(nm)
        for b in spec['bounds']: mon.tally(b)
        for s in spec['shocks']: mon.tally('shock:' + s[0])
        mon.seen(shape_key(spec), len(spec['params']), len(spec['helpers']), len(spec['locals']), sorted(spec['bounds']), [s[0] for s in spec['shocks']])

    def partners(self, rng, mon):
        """several correlations around one shock, in every order of statements"""
        k = int(rng.integers(3, 6)); names = [f'e{i}' for i in range(k)]
        sd = {s: float(np.round(rng.uniform(.3, 2), 2)) for s in names}
        prs = [(names[0], names[1]), (names[0], names[2])] if rng.random() < .5 else [(names[i], names[i+1]) for i in range(k-1)]
        vals = {p: float(np.round(rng.uniform(-.4, .4), 2)) for p in prs}
        st = [['std', s, ex.n(sd[s])] for s in names if rng.random() < .7]
        sd = {s: sd[s] if any(t[1] == s for t in st) else 1.0 for s in names}
        for p in prs:
            a, b = p if rng.random() < .5 else p[::-1]
            kind = 'corr' if rng.random() < .5 else 'cov'
            st.append([kind, a, b, ex.n(vals[p])])
            if kind == 'corr': vals[p] *= sd[p[0]]*sd[p[1]]
        st = [st[i] for i in rng.permutation(len(st))]
        S = np.diag([sd[s]**2 for s in names])
        for (a, b), v in vals.items():
            i, j = names.index(a), names.index(b); S[i, j] = S[j, i] = v
        text = f'var x;\nvarexo {" ".join(names)};\nmodel;\nx = .5*x(-1) + {" + ".join(names)};\nend;\nshocks;\n' + '\n'.join(gen.shock_lines(st, ex.Style())) + '\nend;\n'
        try: md = gen.from_text(text)
        except NotImplementedError:
            mon.tally('too many partners refused'); mon.seen('refused', k, len(prs)); return
        mon.close('shock covariances', md.sigma, S, 1e-10, what=text)
        mon.tally('several partners'); mon.seen('partners', k, [t[0] for t in st])

    def numpy_moments(self, rng, mon):
        """moments given by keyword in any numeric type"""
        from pynare import Model
        ty = [int, float, np.int64, np.float32, np.float64, np.int32][int(rng.integers(6))]
        v, c = ty(int(rng.integers(2, 6))), [ty(1), ty(-1), ty(0)][int(rng.integers(3))]
        md = Model(endog=['x'], stoch=['a', 'b'], exprs=['x = .5*x(-1) + a + b'], shocks={'a': dict(variance=v, other='b', cov=c), 'b': dict(variance=ty(3))})
        mon.close('shock covariances', md.sigma, [[float(v), float(c)], [float(c), 3.]], 1e-12, what=str(ty))
        md = Model(endog=['x'], stoch=['a', 'b'], exprs=['x = .5*x(-1) + a + b'], shocks={'b': dict(other='a', corr=.5), 'a': dict(variance=ty(4))})
        mon.close('shock covariances', md.sigma, [[4., 1.], [1., 1.]], 1e-12, what=str(ty))
        mon.seen('numpy', ty.__name__, float(c))


# ------------------------------------------------------------------------------- layout

COMMENT = ['', ' ', 'x = 1;', 'end;', 'model;', '*', '**', '/ /', "'", '"', 'var x', 'it\'s 5 o"clock', '%', '% //', 'end', ';;', '(((', '* /', '/', 'a/b*c', '100 % sure', ' -- ', '#', 'http://x.y/z', '***',
           'ε = αβ', '=', 'beta = 3;']


def weave(toks, rng, dense):
    """join the tokens of a file with white space and comments of every form"""
    out = []
    prev = None
    word = lambda t: t[0] in ('id', 'fn', 'kw', 'num')

    def gap():
        s = ''
        for _ in range(int(rng.choice([0, 1, 1, 2, 3]))):
            k = rng.integers(9)
            c = COMMENT[rng.integers(len(COMMENT))]
            if k <= 3: s += [' ', '\n', '\t', '\r\n', '   ', '\n\n', '\f', ' \n '][rng.integers(8)]
            elif k == 4: s += ' %' + c + '\n'
            elif k == 5: s += ' //' + c + '\n'
            elif k == 6: s += ' /*' + c.replace('*/', '') + ('\n' + COMMENT[rng.integers(len(COMMENT))] if rng.random() < .4 else '') + '*/'
            elif k == 7: s += ' /**' + (' ' if c[:1] == '/' else '') + c + '**/'
            else: s += ' /* ' + c + ' */ // ' + c + '\n'
        return s
    for t in toks:
        if t[0] == 'eof': break
        g = gap() if rng.random() < dense else ''
        if prev is not None and g == '':
            if word(prev) and word(t): g = [' ', '\n', '\t'][rng.integers(3)]
            elif rng.random() < .2: g = ' '
        # a slash next to a comment or to another slash would become something else
        if prev is not None and prev[0] == '/' and (g[:1] in ('/', '*') or (g == '' and t[0] in '/*')): g = ' ' + g
        out.append(g)
        out.append(f"'{t[1]}'" if t[0] == 'str' and "'" not in t[1] else f'"{t[1]}"' if t[0] == 'str' else t[1])
        prev = t
    out.append(gap() if rng.random() < .5 else ['', '\n', ' ', ' // the end', ' % the end', '/* the end */', '\n\n', '/**/', ' %', ' //'][rng.integers(10)])
    return ''.join(out)


class C03(Check):
    prop = 'C03'
    rule = ('each random model is written plainly and rewritten: tokens woven with white space and comments of every form and content, optional commas, tags, redundant '
            'parentheses, equations set to zero, other line ends, no final line end, one-line files, keyword route with string equations; all builds are compared on names, '
            'values, covariances and residuals; distinct by structure and the rewritings applied')
    assumptions = ['as in C02']
    sizes = dict(quick=320, thorough=20000)

    def fixed(self, tier):
        return [dict(file=f, seed=s) for s in range(4) for f in sorted(glob.glob(REPO + '/pynare/examples/pynare/*') + glob.glob(REPO + '/tests/models/*')) if f.endswith(('.mod', '.txt'))]

    def gen(self, rng, i, tier):
        for _ in range(20):
            spec = rich_spec(rng)
            if usable(spec): break
        else: return None
        return dict(spec=spec, seed=int(rng.integers(1 << 30)))

    def run(self, case, mon):
        rng = rng_for('c03', case['seed'])
        if 'file' in case:
            plain = open(case['file']).read()
            try: r = ref.read(plain)
            except (ref.Bad, ref.Unsure): raise Skip('not within the language')
            spec = dict(r)
            base = file_model(plain)
        else:
            spec = case['spec']
            plain = '\n'.join(write(spec, rng, plain=True)) + '\n'
            try: base = file_model(plain)
            except Exception as err: raise Skip(f'plain file refused: {type(err).__name__}')
        sig = self.signature(base, spec, rng_for('pts', case['seed']))
        variants = []
        toks = ref.tokens(plain)
        for dense in (.1, .5, .9): variants.append((f'woven {dense}', weave(toks, rng, dense)))
        variants.append(('one line', ' '.join(x for x in self.join(toks))))
        if '%' not in plain and '//' not in plain: variants.append(('CRLF', plain.replace('\n', '\r\n')))
        variants.append(('no final newline', plain.rstrip('\n')))
        variants.append(('leading blank lines', '\n\n  \t\n' + plain.replace('\n', '\n\n')))
        if 'spec' in case:
            variants.append(('other spelling', '\n'.join(write(dict(spec, bounds=spec['bounds']), rng))))
            variants.append(('woven spelling', weave(ref.tokens('\n'.join(write(spec, rng))), rng, .4)))
        for nm, text in variants:
            try: md = file_model(text, ['path', 'outline'][int(rng.integers(2))])
            except Exception as err:
                if 'spec' in case and numerical(err, spec): mon.skip('the steady state was not found'); continue
                mon.fail('rewritten file refused', f'{nm}: {type(err).__name__}: {err}\n--- plain\n{plain}\n--- rewritten\n{text}'); continue
            self.same(mon, nm, sig, self.signature(md, spec, rng_for('pts', case['seed'])), plain, text)
            mon.tally(nm)
        if 'spec' in case: self.keywords(spec, sig, mon, rng, case['seed'], plain)
        mon.seen(shape_key(spec), 'file' in case, len(plain) // 100)

    @staticmethod
    def join(toks):
        for t in toks:
            if t[0] == 'eof': return
            yield f'"{t[1]}"' if t[0] == 'str' else t[1]

    def signature(self, md, spec, rng):
        cols, pts = points(spec, rng, 2)
        out = dict(endog=[str(s) for s in md.endog.names], stoch=[str(s) for s in md.stoch.names], determ=[str(s) for s in md.determ.names],
                   params={str(k): float(v) for k, v in sorted(md.params.items())}, sigma=np.asarray(md.sigma, dtype=float),
                   initial=np.asarray(md.initial, dtype=float), terminal=np.asarray(md.terminal, dtype=float), historical=np.asarray(md.historical, dtype=float))
        for i, pt in enumerate(pts):
            out[f'residuals {i}'] = np.asarray(md.dynamic_repr(pt), dtype=float)
            out[f'static residuals {i}'] = np.asarray(md.steady_repr((pt*9)[:len(spec['endog'])]), dtype=float)
        return out

    def same(self, mon, nm, a, b, plain, text, skip=()):
        for k in a:
            if k in skip: continue
            mon.event('compared: ' + k.rstrip(' 0123456789'))
            x, y = a[k], b[k]
            if isinstance(x, np.ndarray):
                ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
            elif isinstance(x, dict): ok = list(x) == list(y) and all(abs(x[q] - y[q]) <= 1e-10*max(1, abs(x[q])) for q in x)
            else: ok = x == y
            if not ok:
                mon.fail('rewriting changes ' + k.rstrip(' 0123456789'), f'{nm}: {x} became {y}\n--- plain\n{plain}\n--- rewritten\n{text}'); return

    def keywords(self, spec, sig, mon, rng, seed, plain):
        from pynare import Model
        allv = gen_vals(spec, True)
        b = bound_vals(spec)
        hel = {k: x for k, x in spec['prog'] if k in spec['helpers']}

        def inline(x, k=0):
            if x[0] == 'p' and x[1] in hel: return inline(hel[x[1]])
            return [x[0]] + [inline(c) if isinstance(c, list) else c for c in x[1:]]
        st = ex.Style(rng, paren=.2, space=.4, ws=(' ', '\t', '\n'))
        params = [(k, ex.show(inline(x), st)) for k, x in spec['params']]
        params = [params[j] for j in rng.permutation(len(params))]
        params = {k: (float(s) if rng.random() < .3 and s.replace('.', '', 1).isdigit() else s) for k, s in params}
        sh = {}
        for s in spec['shocks']:
            d = sh.setdefault(s[1], {})
            v = ex.value(s[-1], allv)
            if s[0] == 'var': d['variance'] = v
            elif s[0] == 'std': d['variance'] = v*v
            else: d['other'] = s[2]; d[s[0]] = v
        try:
            md = Model(endog=list(spec['endog']), stoch=list(spec['stoch']), params=params, shocks=sh, exprs=[ex.show(q, st) for q in spec['eqs']],
                       local_params={k: ex.show(x, st) for k, x in spec['locals']}, initial=b.get('initval', {}), terminal=b.get('endval', {}), historical=b.get('histval', {}))
        except Exception as err:
            if numerical(err, spec): mon.skip('the steady state was not found'); return
            mon.fail('keyword form refused', f'{type(err).__name__}: {err}\n{plain}'); return
        self.same(mon, 'keywords', sig, self.signature(md, spec, rng_for('pts', seed)), plain, str(params))
        mon.tally('keywords')


# ------------------------------------------------------------------------ malformed input

class MutantHang(BaseException): pass


def limited(seconds, thunk):
    """run with a CPU limit of its own"""
    def ring(*_): raise MutantHang()
    old = signal.signal(signal.SIGVTALRM, ring)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try: return thunk()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


JUNK = ['(', ')', ';', ',', '=', '+', '-', '*', '/', '^', '[', ']', '#', '==', '<', '>', '<=', ':', '&', '|', '@', '!', '~', '{', '}', '\\', '$', '?', '`', '"', "'", '.', '1', '0', '2', '1.2.3', '..', '.5',
        '1e3', 'end', 'model', 'var', 'varexo', 'parameters', 'initval', 'shocks', 'stderr', 'corr', 'steady', 'check', 'exp', 'log', 'max', 'normcdf', 'undeclared_', '(+1)', '(-1)', '(+2)', '(-2)', '(1)', '(+0.5)', '()',
        'end;', ';;', '/*', '*/', '//', '%', '**', '_x', '\n', '\x00', 'é', '²', '(0)', '(+0)', '(-0)', '2x', 'x y', 'stoch_simul;', 'varexo_det']


def mutate(text, rng, spec=None):
    """one small change to a text, at the level of tokens, characters, statements or meaning"""
    try: toks = list(C03.join(ref.tokens(text)))
    except (ref.Bad, ref.Unsure): toks = text.split()
    k = int(rng.integers(16))
    n = len(toks)
    if n == 0: return 'empty', text + JUNK[rng.integers(len(JUNK))]
    J = lambda t: ' '.join(t)
    i = int(rng.integers(n)); j = int(rng.integers(n))
    ids = [a for a, t in enumerate(toks) if t[0].isalpha() and t not in ref.KEYWORDS and t not in ref.FUNCS]
    stm = [a for a, t in enumerate(toks) if t == ';']
    if k in (0, 1): return 'delete', J(toks[:i] + toks[i+1:])
    if k == 2: return 'duplicate', J(toks[:i+1] + toks[i:])
    if k == 3: return 'swap', J(toks[:i] + toks[i+1:i+2] + [toks[i]] + toks[i+2:])
    if k in (4, 5): return 'insert', J(toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i:])
    if k == 6: return 'replace', J(toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i+1:])
    if k == 7: return 'truncate', J(toks[:i])
    if k == 8: return 'append', J(toks + [toks[j] if rng.random() < .5 else JUNK[rng.integers(len(JUNK))]])
    if k == 9 and ids:
        a, b = ids[rng.integers(len(ids))], ids[rng.integers(len(ids))]
        return 'other name', J(toks[:a] + [toks[b]] + toks[a+1:])
    if k == 10 and ids:
        a = ids[rng.integers(len(ids))]
        return 'unknown name', J(toks[:a] + [toks[a] + '_q'] + toks[a+1:])
    if k == 11 and len(stm) > 1:
        # drop or repeat a statement
        a = int(rng.integers(len(stm))); lo = stm[a-1] + 1 if a else 0; hi = stm[a] + 1
        if rng.random() < .5: return 'drop statement', J(toks[:lo] + toks[hi:])
        return 'repeat statement', J(toks[:hi] + toks[lo:hi] + toks[hi:])
    if k == 12 and len(stm) > 2:
        a, b = sorted(int(t) for t in rng.choice(len(stm), 2, replace=False))
        lo = stm[a-1] + 1 if a else 0; hi = stm[a] + 1; at = stm[b] + 1
        return 'move statement', J(toks[:lo] + toks[hi:at] + toks[lo:hi] + toks[at:])
    if k == 13 and ids:
        a = ids[rng.integers(len(ids))]
        sh = ['(+2)', '(-2)', '(-1)', '(+1)', '(+3)', '(1)', '(-1.5)', '(+1)(+1)', '(x)', '(+', '(-)'][rng.integers(11)]
        return 'shift', J(toks[:a+1] + [sh] + toks[a+1:])
    if k == 14 and len(text):
        a = int(rng.integers(len(text)))
        c = rng.integers(4)
        if c == 0: return 'delete character', text[:a] + text[a+1:]
        if c == 1: return 'insert character', text[:a] + chr(int(rng.integers(32, 127))) + text[a:]
        if c == 2: return 'replace character', text[:a] + chr(int(rng.integers(32, 127))) + text[a+1:]
        return 'cut', text[:a]
    # several changes at once
    t = text
    for _ in range(2): t = mutate(t, rng)[1]
    return 'several', t


class C04(Check):
    prop = 'C04'
    rule = ('texts derived from valid model files, expressions and equations by deleting, inserting, duplicating, swapping, replacing, truncating or moving tokens, characters and '
            'statements, renaming and shifting variables, plus random text; an independent reader says whether each text is within the language; texts outside must be refused, '
            'accepted ones must give the stated model, and every reading must end; distinct by mutation, verdict and reason')
    assumptions = ['texts whose meaning the language leaves open (repeated assignments or blocks, deterministic shocks, unusual characters, undefined values) are only checked to end']
    sizes = dict(quick=260, thorough=12000)
    per_case = 24
    hang = 10

    def fixed(self, tier):
        out = [dict(kind='texts', texts=t, seed=0) for t in self.classics()]
        for f in sorted(glob.glob(REPO + '/pynare/examples/pynare/*') + glob.glob(REPO + '/tests/models/*')):
            if f.endswith(('.mod', '.txt')): out.append(dict(kind='file', file=f, seed=3))
        return out + [dict(kind='shockdict', seed=s) for s in range(3)]

    @staticmethod
    def classics():
        base = ('var x y;\nvarexo e u;\nparameters a b;\na = 0.5;\nb = 0.2;\nmodel;\nx = a*x(-1) + e;\ny = b*y(+1) + x + u;\nend;\n'
                'initval;\nx = 0;\ny = 0;\nend;\nshocks;\nvar e = 1;\nvar u; stderr 2;\nend;\n')
        R = base.replace
        L = [R('a*x(-1)', 'a*x(-2)'), R('b*y(+1)', 'b*y(+2)'), R('x(-1)', 'x(-1.5)'), R('x(-1)', 'x(1)'), R('var x y;', 'var x y z;'), R('var x y;', 'var x y x;'), R('varexo e u;', 'varexo e u x;'),
             R('parameters a b;', 'parameters a b e;'), R('b = 0.2;', 'b = .2; x = 3;'), R('b = 0.2;', 'b = .2; e = 3;'), R('var e = 1', 'var x = 1'), R('var e = 1', 'var a = 1'), R('var e = 1', 'var q = 1'),
             R('var e = 1', 'corr e, x = .3'), R('var e = 1', 'corr e, a = .3'), R('var e = 1', 'var e, y = .3'), R('var e = 1', 'corr x, e = .3'), R('var e = 1', 'var e = x'), R('var e = 1', 'var e = q'), R('var e = 1', 'var e = u'),
             R('x = 0;', 'a = 0;'), R('x = 0;', 'e = 0;'), R('x = 0;', 'q = 0;'), R('x = 0;', 'x = q;'), R('x = 0;', 'x = e;'), R('x = 0;', 'x = y;'), R('b = 0.2;', ''), R('b = 0.2;', 'b = q;'), R('b = 0.2;', 'b = x;'),
             R('b = 0.2;', 'b = b;'), R('b = 0.2;', 'b = b + 1;'), R('+ u;', '+ q*u;'), R('+ u;', '+ u x;'), R('+ u;', '+ u) ;'), R('+ u;', '+ (u;'), R('+ u;', '+ exp(u) log(u);'), R('+ u;', '+ exp(u) u;'), R('+ u;', '+ u = 3;'),
             R('+ u;', '+ u < 3;'), R('+ u;', '+ u; y = x;'), R('y = b*y(+1) + x + u;', ''), R('+ e;', '+ e(-1);'), R('+ e;', '+ a(-1)*e;'), R('model;', 'model; # a = 3;'), R('model;', 'model; # x = 3;'), R('model;', 'model; # l = x;'),
             R('model;', 'model; # l = q;'), R('model;', 'model; # l = 1; # l = 2;'), R('model;', ''), R('end;\ninitval', 'initval'), R('shocks;', 'shocks'), base + 'steady;', base + 'q = 3;', base + 'x', base + base, base + ';', base[:-2],
             base[:-5], base + '/*', R('a = 0.5', 'a = 0.5.5'), R('a = 0.5', 'a = 5e-1'), R('a = 0.5', 'a = 0.5 0.5'), R('a = 0.5', 'a = = 0.5'), R('a = 0.5', 'a == 0.5'), R('a = 0.5', 'a := 0.5'), R('a = 0.5', '0.5 = a'), R('a = 0.5', 'a = max(1)'),
             R('a = 0.5', 'a = (0.5'), R('a = 0.5', 'a = 0.5)'), R('a = 0.5', 'a = *0.5'), R('a = 0.5', 'a = 0.5*'), R('a = 0.5', 'a = 2 ** 3'), R('a = 0.5', 'a = sqrt 4'), R('a = 0.5', 'a = sqrt()'), R('a = 0.5', 'a = foo(4)'), R('var x y;', 'var x y'),
             R('var x y;', 'var x,, y;'), R('var x y;', 'var x, y,;'), R('var x y;', 'var x; y;'), R('var x y;', 'var exp y;'), R('var x y;', 'var model y;'), R('var x y;', 'var _x y;'), R('var x y;', 'var 2x y;'), R('var x y;', 'var x-y;'),
             R('var x y;', 'vars x y;'), '', ' ', 'x', 'model', 'model;', 'model; end;', 'end;', ';', '(', 'var', 'var x', 'var x;', '%', '//', '/*', '/* *', '/**/', 'var x; model;', 'var x; model; x', 'model; end; shocks; end', '"', "'", "model('", '\\']
        return [L[i:i+8] for i in range(0, len(L), 8)]

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            return dict(kind='expr', seed=int(rng.integers(1 << 30)))
        for _ in range(10):
            spec = rich_spec(rng)
            if usable(spec) and spec['stoch']: break
        else: return None
        return dict(kind='mutants', spec=spec, seed=int(rng.integers(1 << 30)))

    def run(self, case, mon):
        rng = rng_for('c04', case['seed'])
        kind = case['kind']
        if kind == 'shockdict': return self.shock_dicts(mon)
        if kind == 'texts':
            for t in case['texts']: self.judge(t, 'classic', mon, rng)
            return
        if kind == 'expr': return self.expressions(rng, mon)
        text = open(case['file']).read() if kind == 'file' else '\n'.join(write(case['spec'], rng)) + '\n'
        for _ in range(self.per_case):
            nm, t = mutate(text, rng)
            self.judge(t, nm, mon, rng)

    def judge(self, text, nm, mon, rng):
        try: r, verdict, why = ref.read(text), 'ok', ''
        except ref.Bad as b: r, verdict, why = None, 'bad', str(b)
        except ref.Unsure as u: r, verdict, why = None, 'open', str(u)
        except RecursionError: r, verdict, why = None, 'open', 'depth'
        if any(ord(c) > 126 for c in text) and verdict == 'bad': verdict = 'open'

        def attempt():
            md = file_model(text, 'outline' if rng.random() < .6 or not text.isascii() else 'path')
            if why == 'number of equations': md.solve()
            return md
        mon.event('texts read')
        try: md = limited(self.hang, attempt)
        except MutantHang:
            mon.fail('reading does not end', f'{nm}: no result after {self.hang} s of CPU time:\n{text}'); return
        except Exception as err:
            mon.tally(f'{verdict}: refused'); mon.event('refusals of ' + verdict)
            if verdict == 'bad': mon.seen(nm, verdict, ''.join(c for c in why if not c.isdigit())[:24])
            return
        mon.tally(f'{verdict}: accepted')
        if verdict == 'bad':
            mon.fail('accepted text outside of the language', f'{nm}: {why}\n{text}'); return
        if verdict == 'ok':
            judge_model(md, r, r['vals'], r['sigma'], mon, rng, bounds=r['bounds'], what=f'{nm}:\n{text}', k=2)
            mon.seen(nm, verdict, len(r['eqs']))

    def expressions(self, rng, mon):
        from pynare.parsing import evaluate
        from pynare import Model
        names = ['x', 'y', 'zz']
        env = {s: float(np.round(rng.uniform(.2, 2.5), 2)) for s in names}
        for _ in range(60):
            x = arithmetic(rng, leafed(rng, names, 2), 3) if rng.random() < .5 else random_expr(rng, leafed(rng, names, 2), 3)
            exp = ['standard', 'python'][int(rng.integers(2))]
            text = ex.show(x, ex.Style(power='^' if exp == 'standard' else '**'))
            c = rng.integers(6)
            toks = list(C03.join(ref.tokens(text.replace('**', '^'), dynare=False)))
            if exp == 'python': toks = ['**' if t == '^' else t for t in toks]
            i = int(rng.integers(len(toks)))
            if c == 0: toks = toks[:i] + toks[i+1:]
            elif c == 1: toks = toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i:]
            elif c == 2: toks = toks[:i+1] + toks[i:]
            elif c == 3: toks = toks[:i]
            elif c == 4: toks = toks + [JUNK[rng.integers(len(JUNK))]]
            else: toks = toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i+1:]
            text = ' '.join(toks)
            try: r, verdict, why = ref.expression(text, exp), 'ok', ''
            except ref.Bad as b: r, verdict, why = None, 'bad', str(b)
            except ref.Unsure as u: r, verdict, why = None, 'open', str(u)
            if verdict == 'ok' and any(n not in env for n in ref.names_in(r)): verdict, why = 'bad', 'undeclared'
            mon.event('expressions read')
            try: got = limited(self.hang, lambda: evaluate(text, env, exp=exp))
            except MutantHang:
                mon.fail('reading does not end', f'expression: {text!r}'); continue
            except Exception as err:
                mon.tally(f'expression {verdict}: refused')
                if verdict == 'bad': mon.seen('expression', why[:24])
                continue
            if verdict == 'bad': mon.fail('accepted expression outside of the language', f'{text!r} ({exp}): {why}; gave {got!r}'); continue
            if verdict == 'ok':
                try: w, t = ex.value(r, env), tolerance(r, env, rng)
                except (ex.Undefined, OverflowError): continue
                if r[0] in ('<', '<=', '>', '>=', '=='): continue
                if t is None: continue
                mon.event('accepted expressions evaluated')
                if not (isinstance(got, (int, float, np.number)) and abs(float(got) - w) <= t): mon.fail('accepted expression has another value', f'{text!r}: {got!r}, expected {w!r}')
        # equations as strings
        for _ in range(12):
            text = 'x = .5*x(-1) + e'
            toks = ['x', '=', 'p', '*', 'x', '(', '-', '1', ')', '+', 'e']
            i = int(rng.integers(len(toks)))
            c = rng.integers(5)
            if c == 0: toks = toks[:i] + toks[i+1:]
            elif c == 1: toks = toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i:]
            elif c == 2: toks = toks[:i+1] + toks[i:]
            elif c == 3: toks = toks[:i] + [JUNK[rng.integers(len(JUNK))]] + toks[i+1:]
            else: toks = toks + [JUNK[rng.integers(len(JUNK))]]
            q = ' '.join(toks)
            full = f'var x; varexo e; parameters p; p = .5; model; {q} ; end;'
            try: r, verdict, why = ref.read(full), 'ok', ''
            except ref.Bad as b: r, verdict, why = None, 'bad', str(b)
            except ref.Unsure as u: r, verdict, why = None, 'open', str(u)
            if ';' in q or '/' in q or '%' in q or '#' in q or '[' in q or not q.isascii(): verdict = 'open'
            mon.event('equations read')

            def attempt():
                md = Model(endog=['x'], stoch=['e'], params=dict(p=.5), exprs=[q])
                if verdict == 'bad' and 'undeclared' in why: md.solve()
                return md
            try: md = limited(self.hang, attempt)
            except MutantHang: mon.fail('reading does not end', f'equation: {q!r}'); continue
            except Exception: mon.tally(f'equation {verdict}: refused'); continue
            if verdict == 'bad': mon.fail('accepted equation outside of the language', f'{q!r}: {why}')
            elif verdict == 'ok': judge_model(md, r, r['vals'], r['sigma'], mon, rng, what=q, k=2)

    def shock_dicts(self, mon):
        from pynare import Model
        for d in ({'e': dict(other='x', corr=.5)}, {'e': dict(other='nope', cov=.5)}, {'e': dict(other='p', corr=.5)}):
            mon.raises('accepted a correlation with something else than a shock',
                       lambda: Model(endog=['x'], stoch=['e', 'u'], params=dict(p=.5), exprs=['x = p*x(-1) + e + u'], shocks=d).sigma, what=str(d))
        mon.seen('shock dictionaries')


# ---------------------------------------------------------------------------- calibration

class C05(Check):
    prop = 'C05'
    rule = ('histories of up to 25 edits of a calibration of 1-12 numbers and definitions (set, update, add, delete; valid, circular, undefined, malformed, wrong type), on calibrations '
            'alone and inside models; after every step all values are compared with an independent simultaneous solution, and failed edits must leave values and definitions alone; '
            'distinct by the kinds of edits and the depth of the dependence')
    assumptions = ['definitions have finite values that are determined in floating point arithmetic']
    sizes = dict(quick=900, thorough=40000)

    def gen(self, rng, i, tier):
        return dict(seed=int(rng.integers(1 << 30)), model=bool(i % 3 == 2))

    @staticmethod
    def solve(defs):
        vals = {}
        def get(k, stack=()):
            if k in vals: return vals[k]
            if k in stack: raise ValueError('circular')
            if k not in defs: raise ValueError('undefined')
            vals[k] = ex.value(defs[k], gen._Lazy(lambda q: get(q, stack + (k,))))
            return vals[k]
        for k in defs: get(k)
        return vals

    @staticmethod
    def definition(rng, pool, vals):
        for _ in range(30):
            leaves = [ex.p(s) for s in pool] + [['n', NUMS[rng.integers(len(NUMS))]] for _ in range(2)]
            x = random_expr(rng, leaves, int(rng.integers(1, 4)))
            try:
                v = ex.value(x, vals)
                if math.isfinite(v) and abs(v) < 1e4 and tolerance(x, vals, rng) is not None: return x
            except (ex.Undefined, OverflowError): pass
        return ['n', '0.5']

    def run(self, case, mon):
        from pynare import Model
        from pynare.core.variables import ModelCalibration
        from pynare.parsing import parse_string
        rng = rng_for('c05', case['seed'])
        chain = rng.random() < .3         # long ones, every definition through the one before
        pool = [gen.PARAMS[k] for k in rng.permutation(len(gen.PARAMS))[:int(rng.integers(1, 25 if chain else 13))]]
        defs, vals, order = {}, {}, []
        for k in pool:
            prior = list(defs)
            x = self.definition(rng, prior[-1:] if chain else prior[-4:] if rng.random() < .5 else prior, vals) if prior and rng.random() < (.95 if chain else .65) else ex.n(float(np.round(rng.uniform(-2, 3), 3)))
            defs[k] = x; vals[k] = ex.value(x, vals); order.append(k)

        def shown(x):
            if x[0] == 'n' and rng.random() < .7:
                v = float(x[1]); return int(v) if v.is_integer() and rng.random() < .5 else v
            t = ex.show(x, ex.Style(rng, paren=.1, space=.2))
            return parse_string(t) if rng.random() < .2 else t
        given = {k: shown(defs[k]) for k in (order[::-1] if chain and rng.random() < .6 else [order[j] for j in rng.permutation(len(order))])}
        kept = dict(given)
        if case['model']:
            # the parameters appear in the model, so their values reach the equations
            eq = 'x = .5*x(-1) + e + ' + ' + '.join(f'0.001*{k}*(x - y)' for k in pool)
            md = Model(endog=['x', 'y'], stoch=['e'], params=given, exprs=[eq, 'y = x'])
            cal = md.params
        else:
            md, cal = None, ModelCalibration(given)
        hist = []

        def judge(step):
            w = self.solve(defs)
            mon.equal('names in the calibration', sorted(cal), sorted(w), step)
            mon.equal('number of parameters', len(cal), len(w), step)
            for k in w:
                mon.event('values')
                g = cal[k]
                if not (isinstance(g, (int, float, np.number)) and abs(float(g) - w[k]) <= 1e-7*max(1, abs(w[k]))):
                    mon.fail('values satisfy all definitions', f'after {hist}: {k} is {g!r}, expected {w[k]!r}; definitions { {q: ex.show(x) for q, x in defs.items()} }'); return
            mon.true('mapping of the caller', list(given) == list(kept) and all(given[k] is kept[k] for k in kept), lambda: f'after {hist}: {given} was {kept}')
        judge('at first')
        failed = 0
        for step in range(int(rng.integers(3, 26))):
            w = self.solve(defs)
            k = list(defs)[rng.integers(len(defs))]
            op = int(rng.integers(10))
            dependents = lambda a: {q for q, x in defs.items() if a in set(ref.names_in(x)) and q != a}
            def deps(a, seen=()):
                out = {a}
                for q in dependents(a):
                    if q not in out: out |= deps(q)
                return out
            new, expect = dict(defs), True
            snap = {q: cal[q] for q in cal}
            dsnap = dict(cal.defs)
            if op in (0, 1, 2):          # a number
                v = float(np.round(rng.uniform(-2, 3), 3)); new[k] = ex.n(v)
                act, name = (lambda: cal.__setitem__(k, v)), f'{k}={v}'
                if op == 2 and md is not None: act = lambda: md.add_params(**{k: v})
                try:
                    nv = self.solve(new)
                    if not all(math.isfinite(t) and abs(t) < 1e5 for t in nv.values()) or any(tolerance(x, nv, rng) is None for x in new.values()): continue
                except (ex.Undefined, OverflowError): continue
            elif op in (3, 4):           # a definition through others that do not depend on it
                ok = [q for q in defs if q not in deps(k)]
                if not ok: continue
                x = self.definition(rng, ok, w); new[k] = x
                t = shown(x)
                try:
                    nv = self.solve(new)
                    if not all(math.isfinite(t_) and abs(t_) < 1e5 for t_ in nv.values()) or any(tolerance(y, nv, rng) is None for y in new.values()): continue
                except (ex.Undefined, OverflowError): continue
                act, name = (lambda: cal.__setitem__(k, t)), f'{k}:={ex.show(x)}'
                if op == 4:
                    # together with a new one
                    z = next(s for s in gen.PARAMS + ['zz1', 'zz2', 'zz3', 'zz4'] + [f'w{j}' for j in range(60)] if s not in new)
                    new[z] = ex.n(1.5)
                    act, name = (lambda: (md.add_params(**{z: 1.5, k: t}) if md is not None else cal.update({z: 1.5, k: t}))), name + f' with {z}'
            elif op == 5:                # circular
                q = list(deps(k))[rng.integers(len(deps(k)))]
                t = [f'{q} + 1', q, f'exp({q})*2', f'-{q}'][rng.integers(4)]
                expect = False
                act, name = (lambda: cal.__setitem__(k, t)), f'{k}:={t} (circular)'
                if rng.random() < .3 and md is not None: act = lambda: md.add_params(**{k: t})
            elif op == 6:                # undefined
                t = ['nowhere', 'nowhere*2', '2 - nowhere', 'log(nowhere)'][rng.integers(4)]
                expect = False
                a = dict([(k, 3.3), ('fresh', t)] if rng.random() < .5 else [(k, t)])
                act, name = (lambda: cal.update(a)), f'{a} (undefined)'
            elif op == 7:                # malformed
                t = ['2 +', '(3', '3)', '', 'a b', '2**3', None, [1], object, b'1'][rng.integers(10)]
                expect = False
                a = dict([(k, 7.7), ('fresh', t)] if rng.random() < .5 else [(k, t)])
                act, name = (lambda: cal.update(a)), f'{a} (malformed)'
                if rng.random() < .5 and md is not None: act = lambda: md.add_params(**a)
            elif op == 8:                # delete
                expect = not dependents(k)
                if expect and len(defs) == 1: continue
                if md is not None and expect: continue
                if expect: new.pop(k)
                act, name = ((lambda: cal.__delitem__(k)) if rng.random() < .5 else (lambda: cal.pop(k))), f'del {k}'
            else:                        # a name that is not there
                expect = False
                act, name = [(lambda: cal['nowhere'], 'read nowhere'), (lambda: cal.__delitem__('nowhere'), 'del nowhere')][rng.integers(2)]
            hist.append(name)
            mon.event('edits')
            try: act(); got = True
            except Exception as err: got = False
            if got and not expect:
                mon.fail('accepted a definition that cannot be solved', f'{hist}'); return
            if not got and expect:
                mon.fail('refused a definition that can be solved', f'{hist}; definitions { {q: ex.show(x) for q, x in defs.items()} }'); return
            if expect: defs = new
            else:
                failed += 1
                mon.true('refused edit leaves the values', {q: cal[q] for q in cal} == snap, lambda: f'{hist}: { {q: cal[q] for q in cal} } was {snap}')
                mon.true('refused edit leaves the definitions', dict(cal.defs) == dsnap, lambda: f'{hist}: {cal.defs} was {dsnap}')
            judge(name)
            mon.tally('edit:' + ['number', 'number', 'number', 'definition', 'definition', 'circular', 'undefined', 'malformed', 'delete', 'absent'][op] + ('' if expect else ' (refused)'))
        # a calibration made from another is independent of it
        other = ModelCalibration(cal)
        k = list(defs)[0]
        before = {q: cal[q] for q in cal}
        try: other[k] = 12.5
        except Exception: pass
        mon.true('calibrations made from one another are independent', {q: cal[q] for q in cal} == before, lambda: f'{hist}')
        if md is not None:
            md.update()
            w = self.solve(defs)
            x, y, xl, u = .7, .4, .3, .1
            want = x - (.5*xl + u + sum(.001*w[q]*(x - y) for q in pool if q in w))
            mon.close('values reach the equations', np.asarray(md.dynamic_repr([xl, x, y, u]), dtype=float)[0], want, 1e-7, what=str(hist))
        depth = {}
        def dp(k):
            if k not in depth: depth[k] = 1 + max([dp(q) for q in ref.names_in(defs[k])], default=0)
            return depth[k]
        mon.seen(len(defs), max(dp(k) for k in defs), failed, case['model'])


CHECKS = [C01, C02, C03, C04, C05]
