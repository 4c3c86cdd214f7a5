"""
models for the workloads: written as JSON-friendly specifications, buildable through every route
the package offers

spec: dict
    endog, stoch     names in declaration order
    params           list of [name, expression] in the order of definition
    locals           list of [name, expression]
    eqs              equations (see ex.py)
    ss               {name: value} intended steady state, used as starting values
    shocks           list of ['var', e, expr] | ['std', e, expr] | ['corr', a, b, expr] | ['cov', a, b, expr]
"""
import copy, math, os, tempfile
import numpy as np
from vmon import ex

NAMES = ('x xx x1 x_1 y yy y1 Y c cc k kk lambda def is in pi np ss i I E t t1 a_b X nn n r rr rk w z zz h m mm q '
         'dy d class not b bb inf nan None True mc s1 ystar gap infl R u_ g gg self x_m1 x_p1 period array ss_ y_t').split()
SHOCKS = 'e ee e1 e_x eps u uu u1 v nu mu lambda_e shock as from x_e e_ ux'.split()
PARAMS = 'alpha beta bet be a aa a1 rho rho1 rho_x phi p pp gamma delta theta or and sig sigma tau psi kap xi om'.split()


def names(rng, pool, k, taken, plain=False):
    out = []
    pool = [s for s in pool if s not in taken]
    rng.shuffle(pool)
    if k > 1 and pool and not plain and rng.random() < .15:
        # names that extend one another, in any order
        s, chain = pool[0], []
        while len(chain) < min(k, 5):
            if s not in taken: chain.append(s)
            s = s + ['x', '1', '_', 'a', '_p1', 'm1'][int(rng.integers(6))]
        rng.shuffle(chain)
        for s in chain: out.append(s); taken.add(s)
        pool = [s for s in pool if s not in taken]
        k -= len(chain)
        rest = names(rng, pool, k, taken, True) if k > 0 else []
        return out + rest
    for s in pool[:k]:
        out.append(s); taken.add(s)
    j = 0
    while len(out) < k:
        s = f'{pool[0] if pool else "v"}_{j}'; j += 1
        if s not in taken: out.append(s); taken.add(s)
    return out


def num(x, d=3):
    return round(float(x), d)


# ---------------------------------------------------------------- parameter values

def param_values(spec):
    """solve the definitions, in whatever order they are given"""
    defs = dict((k, x) for k, x in spec['params'])
    vals = {}

    def get(k, stack=()):
        if k in vals: return vals[k]
        if k in stack: raise ValueError('circular')
        env = _Lazy(lambda q: get(q, stack + (k,)))
        vals[k] = ex.value(defs[k], env)
        return vals[k]
    for k in defs: get(k)
    for k, x in spec.get('locals', []):
        vals[k] = ex.value(x, vals)
    return vals


class _Lazy(object):
    def __init__(self, f): self.f = f
    def __getitem__(self, k): return self.f(k)


def sigma_of(spec):
    """the covariance matrix the shock statements define"""
    vals = param_values(spec)
    names = spec['stoch']
    ix = {s: i for i, s in enumerate(names)}
    S = np.eye(len(names))
    for st in spec.get('shocks', []):
        if st[0] == 'var': S[ix[st[1]], ix[st[1]]] = ex.value(st[2], vals)
        if st[0] == 'std': S[ix[st[1]], ix[st[1]]] = ex.value(st[2], vals)**2
    for st in spec.get('shocks', []):
        if st[0] in ('corr', 'cov'):
            i, j, x = ix[st[1]], ix[st[2]], ex.value(st[3], vals)
            S[i, j] = S[j, i] = x if st[0] == 'cov' else x*math.sqrt(S[i, i]*S[j, j])
    return S


# ------------------------------------------------------------------------- building

def shock_dict(spec):
    """the keyword form of the shock statements"""
    vals = param_values(spec)
    out = {}
    for st in spec.get('shocks', []):
        d = out.setdefault(st[1], {})
        if st[0] == 'var': d['variance'] = ex.value(st[2], vals)
        elif st[0] == 'std': d['variance'] = ex.value(st[2], vals)**2
        else:
            d['other'] = st[2]
            d[st[0]] = ex.value(st[3], vals)
    return out


def start_of(spec):
    """the starting values handed to the model: the steady state unless the spec says otherwise"""
    return spec.get('start') or spec['ss']


def kwargs_of(spec, style=None, exprs_defs=True):
    vals = param_values(spec)
    params = {}
    for k, x in spec['params']:
        params[k] = float(x[1]) if x[0] == 'n' else (ex.show(x, style) if exprs_defs else vals[k])
    kw = dict(
        endog=list(spec['endog']), stoch=list(spec['stoch']), params=params,
        exprs=[ex.show(q, style) for q in spec['eqs']], shocks=shock_dict(spec),
        initial={k: float(s) for k, s in start_of(spec).items()},
    )
    if spec.get('locals'):
        kw['local_params'] = {k: ex.show(x, style) for k, x in spec['locals']}
    return kw


def mod_text(spec, st=None, order=None, tags=None, commas=False, trailing=True, layout=None):
    """a model file in the plain layout; the C02/C03 checks have their own writers on top"""
    st = st or ex.Style()
    sep = ', ' if commas else ' '
    L = ['var ' + sep.join(spec['endog']) + ';']
    if spec['stoch']: L.append('varexo ' + sep.join(spec['stoch']) + ';')
    if spec['params']: L.append('parameters ' + sep.join(k for k, _ in spec['params']) + ';')
    for k, x in spec['params']: L.append(f'{k} = {ex.show(x, st)};')
    L.append('model;')
    for k, x in spec.get('locals', []): L.append(f'# {k} = {ex.show(x, st)};')
    for q in spec['eqs']: L.append('  ' + ex.show(q, st) + ';')
    L.append('end;')
    L.append('initval;')
    for k in spec['endog']: L.append(f'  {k} = {ex.show(ex.n(float(start_of(spec)[k])), st)};')
    L.append('end;')
    if spec.get('shocks'):
        L.append('shocks;')
        L += shock_lines(spec['shocks'], st)
        L.append('end;')
    return '\n'.join(L) + ('\n' if trailing else '')


def shock_lines(shocks, st):
    L = []
    for s in shocks:
        if s[0] == 'var': L.append(f'  var {s[1]} = {ex.show(s[2], st)};')
        elif s[0] == 'std': L.append(f'  var {s[1]}; stderr {ex.show(s[2], st)};')
        elif s[0] == 'corr': L.append(f'  corr {s[1]}, {s[2]} = {ex.show(s[3], st)};')
        else: L.append(f'  var {s[1]}, {s[2]} = {ex.show(s[3], st)};')
    return L


def from_text(text, suffix='.mod'):
    from pynare import Model
    fd, path = tempfile.mkstemp(suffix=suffix, prefix='vmon')
    try:
        with os.fdopen(fd, 'w', newline='') as fh: fh.write(text)
        return Model.from_path(path)
    finally:
        os.unlink(path)


def build(spec, route='kwargs'):
    from pynare import Model
    if route == 'file': return from_text(mod_text(spec))
    return Model(**kwargs_of(spec))


# ---------------------------------------------------------- random covariance matrices

def gen_shocks(rng, stoch, kind=None, taken=()):
    """statements giving a positive definite covariance matrix"""
    out = []
    kind = kind or ['default', 'var', 'std', 'mix', 'corr', 'cov', 'mix'][rng.integers(7)]
    var = {s: 1.0 for s in stoch}
    # shocks of ordinary size, or all of them tiny, as in models in logs, or large
    size = 1. if rng.random() < .85 else [.001, .01, 30.][rng.integers(3)]
    if kind != 'default':
        for s in stoch:
            if rng.random() < .2 and size == 1: continue
            x = num(rng.uniform(.05 if size > .001 else .3, 3)*size, 5)
            if kind == 'std' or (kind != 'var' and rng.random() < .4):
                out.append(['std', s, ex.n(x)]); var[s] = x*x
            else:
                out.append(['var', s, ex.n(x)]); var[s] = x
    if len(stoch) > 1 and kind in ('corr', 'cov', 'mix'):
        # disjoint pairs: one partner per shock can be stated
        perm = [stoch[i] for i in rng.permutation(len(stoch))]
        for a, b in zip(perm[::2], perm[1::2]):
            if rng.random() < .25 and kind == 'mix': continue
            r = num(rng.uniform(-.9, .9), 2)
            if kind == 'cov' or (kind == 'mix' and rng.random() < .5):
                c = num(r*math.sqrt(var[a]*var[b]), 4 if size == 1 else 10)
                out.append(['cov', a, b, ex.n(c)])
            else:
                out.append(['corr', a, b, ex.n(r)])
    return [out[i] for i in rng.permutation(len(out))] if out and rng.random() < .5 else out


# --------------------------------------------------------------------- random models

def gen_matrices(rng, n, ns, regime='contraction', classes=None):
    """coefficients of A0 y + Am y(-1) + Ap y(+1) = C u, the classes of the variables, rounded"""
    if classes is None:
        mix = [(.25, .25, .25, .25), (.5, .3, .1, .1), (0, 1, 0, 0), (.2, .7, .1, 0), (.1, .2, .6, .1), (0, 0, 1, 0),
               (.1, .2, .1, .6), (.3, .2, .0, .5), (.0, .5, .0, .5), (.3, .0, .7, 0), (.25, .25, .25, .25)][rng.integers(11)]
        classes = [int(rng.choice(4, p=np.array(mix)/sum(mix))) for _ in range(n)]
        if all(c == 0 for c in classes): classes[rng.integers(n)] = int(rng.integers(1, 3))
    lag = np.array([c in (1, 2) for c in classes]); lead = np.array([c in (2, 3) for c in classes])
    dens = rng.choice([.25, .5, .9])
    A = rng.normal(size=(n, n))*(rng.random((n, n)) < dens)*lag
    B = rng.normal(size=(n, n))*(rng.random((n, n)) < dens)*lead
    for j in range(n):
        # variables act on themselves more often than on others
        if lag[j] and (rng.random() < .7 or not A[:, j].any()): A[j, j] = rng.uniform(.2, 1)*rng.choice([1, 1, -1])
        if lead[j] and (rng.random() < .7 or not B[:, j].any()): B[j, j] = rng.uniform(.2, 1)*rng.choice([1, 1, -1])
    if regime == 'contraction':
        rho = rng.uniform(.4, .96)
        wa = rng.uniform(.2, .8) if lag.any() and lead.any() else (1. if lag.any() else 0.)
        ra, rb = np.abs(A).sum(1).max(), np.abs(B).sum(1).max()
        if ra: A *= rho*wa/ra
        if rb: B *= rho*(1-wa)/rb
    C = rng.normal(size=(n, ns))*(rng.random((n, ns)) < .6) if ns else np.zeros((n, 0))
    for j in range(ns):
        if not C[:, j].any(): C[rng.integers(n), j] = 1.0
    # mix the equations so that variables appear contemporaneously in several of them
    Q = np.eye(n)
    for _ in range(int(rng.integers(0, 2*n + 1)) if n > 1 else 0):
        i, j = rng.choice(n, 2, replace=False)
        Q[i] += num(rng.uniform(-.8, .8), 2)*Q[j]
    if rng.random() < .3: Q = Q*rng.choice([-2, -1, .5, 1, 3.], size=(n, 1))
    P = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    Q = Q[P]
    r = lambda M: np.round(M, 3)
    return r(Q), r(-Q @ A), r(-Q @ B), r(Q @ C), classes


DEVS = ('lin', 'lin', 'log', 'ratio', 'exp', 'pow', 'sqrt', 'sin', 'atan')


def dev(kind, x, s, extra):
    """a function of the dated variable x that vanishes at its steady state s"""
    if kind == 'lin': return ex.sub(x, s)
    if kind == 'log': return ex.f('log', ex.div(x, s))
    if kind == 'logs': return ex.sub(ex.f('ln', x), ex.f('ln', s))
    if kind == 'ratio': return ex.sub(ex.div(x, s), ex.n(1))
    if kind == 'exp': return ex.sub(ex.f('exp', ex.sub(x, s)), ex.n(1))
    if kind == 'pow': return ex.sub(ex.pw(x, ex.n(extra)), ex.pw(s, ex.n(extra)))
    if kind == 'sqrt': return ex.sub(ex.f('sqrt', x), ex.f('sqrt', s))
    if kind == 'sin': return ex.f('sin', ex.sub(x, s))
    if kind == 'atan': return ex.f('atan', ex.sub(x, s))
    if kind == 'erf': return ex.f('erf', ex.sub(x, s))
    if kind == 'tan': return ex.f('tan', ex.sub(x, s))
    if kind == 'asin': return ex.f('asin', ex.sub(x, s))
    if kind == 'log10': return ex.f('log10', ex.div(x, s))
    raise ValueError(kind)


def gen_model(rng, n=None, ns=None, nonlinear=False, regime='contraction', classes=None, plain=False, shocks=None,
              sprinkle=True):
    """
    a random model. linear ones in levels with steady state zero (or shifted by constants);
    nonlinear ones in functions of deviations from a known steady state
    """
    if n is None: n = int(rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7])) if rng.random() < .96 else int(rng.integers(8, 13))
    if ns is None: ns = int(rng.choice([1, 1, 2, 2, 3, 4])) if rng.random() < .96 else int(rng.integers(5, 8))
    A0, Am, Ap, C, classes = gen_matrices(rng, n, ns, regime, classes)
    taken = set()
    if plain:
        endog = [f'y{i}' for i in range(1, n+1)]; stoch = [f'e{i}' for i in range(1, ns+1)]
        taken |= set(endog) | set(stoch)
    else:
        endog = names(rng, NAMES, n, taken); stoch = names(rng, SHOCKS, ns, taken)
    pn = names(rng, PARAMS, 20, taken)
    params = []

    def coef(x):
        """a number, or a parameter having that value"""
        x = float(x)
        if sprinkle and len(params) < 12 and rng.random() < .15:
            k = pn[len(params)]
            nums = [q for q in params if q[1][0] == 'n']
            if nums and rng.random() < .3:
                # defined through an earlier one
                q = nums[rng.integers(len(nums))]
                d = num(x - float(q[1][1]), 6)
                params.append([k, ex.add(ex.p(q[0]), ex.n(d)) if d >= 0 else ex.sub(ex.p(q[0]), ex.n(-d))])
            elif x >= 0: params.append([k, ex.n(x)])
            else:
                params.append([k, ex.n(-x)]); return ex.neg(ex.p(k))
            return ex.p(k)
        return ex.n(x)

    ssv, kinds, extra, ssx = {}, {}, {}, {}
    for y in endog:
        if nonlinear:
            kd = DEVS[rng.integers(len(DEVS))]
            kinds[y] = kd
            s = num(rng.uniform(.3, 3), 2) if kd in ('log', 'ratio', 'pow', 'sqrt') else num(rng.choice([0, 1])*rng.uniform(-2, 2), 2)
            extra[y] = float(rng.choice([2, .5, 1.5, .3, 3, -1]))
            if sprinkle and rng.random() < .4 and len(params) < 12 and s >= 0:
                k = pn[len(params)]; params.append([k, ex.n(s)]); ssx[y] = ex.p(k)
            else: ssx[y] = ex.n(s)
            ssv[y] = s
        else:
            kinds[y] = 'lin'; ssv[y] = 0.0

    def D(y, t):
        x = ex.v(y, t)
        if not nonlinear: return x
        kd = kinds[y]
        if kd == 'log' and rng.random() < .3: kd = 'logs'
        return dev(kd, x, ssx[y], extra[y])

    eqs = []
    for i in range(n):
        terms = []
        for j, y in enumerate(endog):
            for t, M in ((0, A0), (-1, Am), (1, Ap)):
                if M[i, j]: terms.append((float(M[i, j]), D(y, t)))
        for j, s in enumerate(stoch):
            if C[i, j]: terms.append((-float(C[i, j]), ex.e(s)))
        if nonlinear:
            # second-order terms in what the model contains anyway
            avail = [(y, 0) for y in endog]
            avail += [(y, -1) for j, y in enumerate(endog) if Am[:, j].any()]
            avail += [(y, 1) for j, y in enumerate(endog) if Ap[:, j].any()]
            for _ in range(int(rng.integers(0, 4))):
                def factor():
                    if stoch and rng.random() < .3: return ex.e(stoch[rng.integers(ns)])
                    return D(*avail[rng.integers(len(avail))])
                a, b = factor(), factor()
                u = rng.random()
                if u < .5: q = ex.mul(a, b)
                elif u < .7: q = ex.pw(a, ex.n(2))
                else:
                    # combinations whose curvature vanishes in some direction, or that is nested
                    c = num(rng.choice([1, 1, -1, .5, 2]), 2)
                    d = ex.sub(a, b) if c == 1 else ex.add(a, b) if c == -1 else ex.sub(a, ex.mul(ex.n(c), b))
                    q = [ex.pw(d, ex.n(2)), ex.mul(d, d), ex.sub(ex.f('exp', d), ex.n(1)), ex.sub(ex.f('cos', d), ex.n(1)), ex.f('sin', ex.mul(d, ex.add(ex.n(1), b))),
                         ex.sub(ex.f('exp', ex.mul(a, b)), ex.n(1)), ex.pw(ex.sub(ex.mul(ex.n(1), d), ex.neg(b)), ex.n(2)), ex.f('log', ex.add(ex.n(1), ex.pw(d, ex.n(2))))][rng.integers(8)]
                terms.append((num(rng.uniform(-.5, .5), 2) or .1, q))
            if stoch and rng.random() < .3:
                # shocks inside nonlinear functions
                a = D(*avail[rng.integers(len(avail))])
                u = ex.e(stoch[rng.integers(ns)])
                terms.append((num(rng.uniform(-.4, .4), 2) or .1, ex.mul(a, ex.f('exp', u))))
        order = rng.permutation(len(terms))
        left, right = [], []
        for k in order:
            (left if rng.random() < .5 else right).append(terms[k])
        if not left: left, right = right, left

        def side(ts, sign):
            out = None
            for c, x in ts:
                c = sign*c
                if out is None:
                    out = x if c == 1 else (ex.neg(x) if c == -1 and rng.random() < .5 else ex.mul(coef(c), x))
                elif c < 0:
                    out = ex.sub(out, x if c == -1 else ex.mul(coef(-c), x))
                else:
                    out = ex.add(out, x if c == 1 else ex.mul(coef(c), x))
            return ex.n(0) if out is None else out
        l, r = side(left, 1), side(right, -1)
        if not right and rng.random() < .5: eqs.append(l)
        else: eqs.append(['=', l, r])
    spec = dict(endog=endog, stoch=stoch, params=params, locals=[], eqs=eqs, ss=ssv,
                shocks=gen_shocks(rng, stoch) if shocks is None else shocks, nonlinear=bool(nonlinear))
    return spec
