"""C21-C22: altered models, and computations that leave everything else alone"""
import copy, math, re, warnings
import numpy as np
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, Hang, rng_for, short
from vmon.common import *


# ------------------------------------------------------- everything a model has to report

def _vec(x): return np.array(x, dtype=float)


def fixed_shocks(md, T=6):
    k = len(md.stoch)
    return np.array([[.3*math.sin(1.7*t + 2.3*j + .4) for j in range(k)] for t in range(T)]).reshape(T, k)


def dyn_point(md):
    """a point of the dynamic model: every dated variable away from its steady state, every shock nonzero"""
    d = np.asarray(md.indexes.llx)
    ss = np.asarray(md.ss.values, dtype=float)
    vals = []
    for k in range(3):
        for j in range(len(ss)):
            if np.isfinite(d[k, j]): vals.append(ss[j] + .01*math.sin(3*k + j + 1))
    return np.array(vals + [.02*(j + 1) for j in range(len(md.stoch))])


FREE = {     # available whether or not the model was solved
    'endog.names': lambda md: [str(s) for s in md.endog.names],
    'stoch.names': lambda md: [str(s) for s in md.stoch.names],
    'determ.names': lambda md: [str(s) for s in md.determ.names],
    'params': lambda md: {k: float(v) for k, v in md.params.items()},
    'local_params': lambda md: (md.model_scope, {k: float(v) for k, v in md.local_params.items()})[1],
    'model_scope': lambda md: {k: float(v) for k, v in md.model_scope.items()},
    'n_exprs': lambda md: len(md.exprs),
    'determ': lambda md: [[str(d.name), repr(d.periods), repr(d.values)] for d in md.determ],
    'language': lambda md: md.language,
    'initial': lambda md: _vec(md.initial),
    'terminal': lambda md: _vec(md.terminal),
    'historical': lambda md: _vec(md.historical),
    'sigma': lambda md: _vec(md.sigma),
    'ss': lambda md: _vec(md.ss.values),
    'steady_repr': lambda md: _vec(md.steady_repr(np.asarray(md.ss.values, dtype=float) + .05)),
    'dynamic_repr': lambda md: _vec(md.dynamic_repr(dyn_point(md))),
    'jacobian': lambda md: _vec(md.jacobian.array),
    'hessian': lambda md: _vec(md.hessian.array if hasattr(md.hessian, 'array') else md.hessian),
    'eigenvalues': lambda md: np.sort(np.abs(np.asarray(md.statespace.eigen))),
    'groups': lambda md: {g: [str(s) for s in getattr(md, g).names] for g in
                          ('state_vars', 'pure_forward_vars', 'pure_backward_vars', 'mixed_vars', 'static_vars',
                           'forward_vars', 'backward_vars')},
    'orders': lambda md: [np.asarray(md.indexes.dr_order).tolist(), np.asarray(md.indexes.dc_order).tolist(),
                          np.nan_to_num(np.asarray(md.indexes.llx, dtype=float)).tolist()],
    'summary': lambda md: str(md.summary(sig=5)),
}

SOLVED = {
    'order': lambda md: md.solution_order,
    'gy,gu': lambda md: [_vec(m) for m in md.first_order_solution.matrices],
    'matrices': lambda md: [_vec(m) for m in md.solution.matrices],
    'simulate': lambda md: _vec(md.simulate(fixed_shocks(md)).paths),
    'simulate from': lambda md: _vec(md.simulate(fixed_shocks(md), init=_vec(md.ss.values)*1.01 + .02).paths),
    'irf': lambda md: [_vec(md.impulse_response(str(s), periods=5, size=.7).impulse) for s in md.stoch.names],
    'mean': lambda md: _vec(md.stats.mean()),
    'var': lambda md: _vec(md.stats.var()),
    'std': lambda md: _vec(md.stats.std()),
    'cov': lambda md: _vec(md.stats.cov()),
    'corr': lambda md: _vec(md.stats.corr()),
    'autocov': lambda md: _vec(md.stats.autocov(p=3)),
    'autocorr': lambda md: _vec(md.stats.autocorr(p=3)),
    'var_decomp': lambda md: _vec(md.stats.var_decomp()),
    'statespace': lambda md: [_vec(md.statespace.sigma)] + [_vec(m) for m in md.statespace.kalman_transition],
    'stats summary': lambda md: str(md.stats.summary(sig=4)),
    'solution summary': lambda md: str(md.solution.summary(sig=4)),
}
ITEMS = {**FREE, **SOLVED}


def look(md, item):
    """what the model says, or how it refuses"""
    try:
        return ITEMS[item](md)
    except Hang:
        raise
    except Exception as err:
        return ('raised', type(err).__name__)


def report(md, items=None):
    return {k: look(md, k) for k in (items or ITEMS)}


NUMBER = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+|nan|inf)(?:e[-+]?\d+)?')


def text_same(a, b, tol):
    """texts agree, up to the last printed digit"""
    if a == b: return True
    if re.sub(r'\s+', ' ', NUMBER.sub('#', a)) != re.sub(r'\s+', ' ', NUMBER.sub('#', b)): return False
    xs, ys = [float(t) for t in NUMBER.findall(a)], [float(t) for t in NUMBER.findall(b)]
    return len(xs) == len(ys) and all(abs(x - y) <= tol*max(1, abs(y)) or (x != x and y != y) for x, y in zip(xs, ys))


def same(got, want, tol=1e-8):
    """'' where the two agree, otherwise what differs"""
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray): return f'{short(got, 200)} instead of {short(want, 200)}'
        if got.shape != want.shape: return f'shape {got.shape} instead of {want.shape}'
        if got.size == 0: return ''
        s = max(1.0, float(np.nanmax(np.where(np.isfinite(want), np.abs(want), 0))))
        bad = (np.isnan(got) != np.isnan(want)) | (np.abs(got - want) > tol*s)
        return f'{short(np.array2string(got, precision=8), 300)} instead of {short(np.array2string(want, precision=8), 300)}' if bad.any() else ''
    if isinstance(want, float):
        if not isinstance(got, float): return f'{got!r} instead of {want!r}'
        return '' if got == want or (got != got and want != want) or abs(got - want) <= tol*max(1, abs(want)) else f'{got!r} instead of {want!r}'
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(want): return f'{short(got, 200)} instead of {short(want, 200)}'
        for k in want:
            d = same(got[k], want[k], tol)
            if d: return f'[{k}] {d}'
        return ''
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want): return f'{short(got, 200)} instead of {short(want, 200)}'
        for i, (g, w) in enumerate(zip(got, want)):
            d = same(g, w, tol)
            if d: return f'[{i}] {d}'
        return ''
    if isinstance(want, str) and isinstance(got, str):
        return '' if text_same(got, want, 2e-4) else f'\n{short(got, 500)}\ninstead of\n{short(want, 500)}'
    return '' if got == want else f'{short(got, 200)} instead of {short(want, 200)}'


def refused(x): return isinstance(x, tuple) and len(x) == 2 and x[0] == 'raised'


# ------------------------------------------------------------------- random computations

def computations(rng, md, heavy=True, plots=True):
    """one computation a user might run; refusals are part of life"""
    import matplotlib
    matplotlib.use('Agg')
    what = str(rng.choice(['solve', 'solve1', 'solve2', 'simulate', 'random simulate', 'simulate order', 'irf', 'stats', 'summary',
                           'stats summary', 'solution summary', 'plot', 'copy', 'ss', 'item', 'item', 'update', 'solution', 'sim stats']))
    return run_computation(what, md, rng)


def run_computation(what, md, rng):
    out = None
    if what == 'solve': out = md.solve()
    elif what == 'solve1': out = md.solve(order=1)
    elif what == 'solve2': out = md.solve(order=2)
    elif what == 'solution': out = md.solution
    elif what == 'simulate': out = md.simulate(fixed_shocks(md, int(rng.integers(2, 9))))
    elif what == 'random simulate': out = md.simulate(periods=int(rng.integers(2, 12)))
    elif what == 'simulate order': out = md.simulate(fixed_shocks(md), order=int(rng.integers(1, 3)))
    elif what == 'irf':
        s = md.stoch.names
        out = md.impulse_response(str(s[rng.integers(len(s))]) if len(s) and rng.random() < .7 else None, periods=int(rng.integers(2, 9)),
                                  size=float(rng.choice([1, .5, -2])))
    elif what == 'stats':
        k = str(rng.choice(['mean', 'var', 'std', 'cov', 'corr', 'autocov', 'autocorr', 'var_decomp']))
        out = getattr(md.stats, k)()
    elif what == 'summary': out = str(md.summary(sig=int(rng.integers(1, 9))))
    elif what == 'stats summary': out = str(md.stats.summary(autocorr=int(rng.integers(1, 7))))
    elif what == 'solution summary':
        out = str(md.solution.summary(sig=int(rng.integers(2, 8)), thresh=[None, 0, 2][int(rng.integers(3))]))
    elif what == 'plot':
        import matplotlib.pyplot as plt
        r = md.impulse_response(periods=4) if rng.random() < .5 else md.simulate(periods=4)
        r.plot(layout=str(rng.choice(['rect', 'square', 'column', 'row'])))
        plt.close('all')
    elif what == 'copy': out = md.copy()
    elif what == 'ss': out = md.ss.values
    elif what == 'update': md.update()
    elif what == 'item': k = list(ITEMS)[rng.integers(len(ITEMS))]; out = look(md, k)
    elif what == 'sim stats':
        s = md.simulate(periods=30)
        out = (s.corr(), s.autocorr(p=2))
    return what, out


def try_computation(rng, md):
    try:
        return computations(rng, md)
    except Hang:
        raise
    except Exception as err:
        return 'refused', type(err).__name__


# ------------------------------------------------------------------------------ C21

class C21(Check):
    prop = 'C21'
    rule = ('one count per distinct (kinds of alterations in the order made, how the model came to be, solution order); '
            'the altered model and the freshly built one both solved')
    assumptions = ['edits through params[...] = and exprs[...] = are followed by update() before the model is used for what is judged',
                   'the altered model is solved again before solution-dependent results are judged',
                   'shock moments and starting values computed from parameters when a file is read are values, not formulas']
    sizes = dict(quick=480, thorough=4000)
    caps = dict(quick=240, thorough=780)

    def gen(self, rng, i, tier):
        nl = rng.random() < .45
        spec = pick_model(rng, nonlinear=nl, n=int(rng.choice([1, 2, 2, 3, 3, 4])), ns=int(rng.choice([1, 1, 2, 2, 3])))
        if spec is None: return None
        if rng.random() < .35: add_local(rng, spec)
        other = None
        if rng.random() < .5:
            # another model of the same variables, to come from
            other = sibling(rng, spec)
        return dict(spec=spec, other=other, seed=int(rng.integers(1 << 31)), order=int(rng.integers(1, 3)),
                    start=str(rng.choice(['kwargs', 'kwargs', 'kwargs', 'file', 'empty', 'copy'])))

    def run(self, case, mon):
        warnings.simplefilter('ignore')
        from pynare import Model
        for j in range(5):
            rng = np.random.default_rng([case['seed'], j])
            plan = Plan(rng, copy.deepcopy(case['spec']), case['other'])
            if case['start'] == 'empty': plan.from_nothing()
            else: plan.unwind()
            final, start = plan.final, plan.start
            try:
                fresh = Model(**copy.deepcopy(final))
                fresh.solve(order=case['order'])
            except Hang: raise
            except Exception as err:
                raise Skip(f'the final model is refused: {type(err).__name__}')
            # how the model came to be
            try:
                if case['start'] == 'file': md = gen.from_text(kw_text(start))
                elif case['start'] == 'empty': md = Model()
                else: md = Model(**copy.deepcopy(start))
                break
            except Hang: raise
            except Exception as err:
                why = type(err).__name__
        else:
            raise Skip(f'the first model is refused: {why}')
        if case['start'] == 'copy': md = md.copy()
        log = []
        def churn(p):
            while rng.random() < p:
                w, _ = try_computation(rng, md)
                log.append(w); p *= .7
        churn(.75)
        dirty = False
        for op in plan.ops:
            try:
                dirty = op.apply(md) or dirty
            except Hang: raise
            except Exception as err:
                # alterations can be made in any order, whatever the model looks like in between
                mon.fail('alteration', f'{op} raised {type(err).__name__}: {err}')
                return
            mon.event('alteration'); mon.tally('alteration:' + op.kind); log.append(op.kind)
            if rng.random() < .35:
                if dirty and rng.random() < .6:
                    try: md.update()
                    except Hang: raise
                    except Exception: mon.tally('update refused half-way')
                    else: dirty = False
                churn(.6)
        if dirty: md.update()
        kinds = tuple(op.kind for op in plan.ops)
        order = case['order']
        mode = rng.integers(3)
        try:
            if mode == 0: md.solve(order=order)
            elif mode == 1 and not refused(look(fresh, 'simulate')): md.simulate(fixed_shocks(md), order=order)
            else:
                # a look at the structure first
                for k in rng.permutation(list(FREE))[:4]: look(md, str(k))
                md.solve(order=order)
        except Hang: raise
        except Exception as err:
            mon.fail('solve', f'the altered model cannot be solved ({type(err).__name__}: {err}), a new one can; history {log}')
            return
        items = [str(k) for k in rng.permutation(list(ITEMS))]
        for k in items:
            got, want = look(md, k), look(fresh, k)
            mon.event('compared:' + k)
            if refused(want): mon.tally(f'both refuse:{k}')
            d = same(got, want)
            if d:
                mon.fail('stale:' + k, f'after {log}: {k} is {d}')
        mon.tally('start:' + case['start'], f'order:{order}', f'alterations:{len(kinds)}')
        mon.seen(kinds, case['start'], order)


class Op(object):
    def __init__(self, kind, fn, text, direct=False):
        self.kind, self.fn, self.text, self.direct = kind, fn, text, direct

    def apply(self, md):
        self.fn(md)
        return self.direct

    def __repr__(self): return self.text


def add_local(rng, spec):
    """a local definition depending on parameters, used in an equation"""
    taken = set(spec['endog']) | set(spec['stoch']) | {k for k, _ in spec['params']}
    nm = gen.names(rng, ['loc', 'lam', 'mu_', 'kk1', 'omega'], 1, taken)[0]
    nums = [k for k, x in spec['params'] if x[0] == 'n']
    if nums:
        k = nums[int(rng.integers(len(nums)))]
    else:
        k = gen.names(rng, ['share', 'nu_'], 1, taken | {nm})[0]
        spec['params'].append([k, ex.n(gen.num(rng.uniform(.2, .9)))])
    v = gen.param_values(spec)[k]
    scale = gen.num(rng.uniform(.3, 1.5), 2)
    spec['locals'].append([nm, ex.mul(ex.n(scale), ex.p(k))])
    # (nm/(scale*v)) multiplies a whole equation: its value depends on the definition, its zeros do not; and
    # a term which is zero at the final values only makes solutions depend on it
    i = int(rng.integers(len(spec['eqs'])))
    q = spec['eqs'][i]
    w = gen.num(scale*v, 12)
    f = ex.add(ex.n(1), ex.mul(ex.n(.5), ex.sub(ex.p(nm), ex.n(w)) if w >= 0 else ex.add(ex.p(nm), ex.n(-w))))
    spec['eqs'][i] = ['=', q[1], ex.mul(f, q[2])] if q[0] == '=' else ex.mul(f, q)


def sibling(rng, spec):
    """another well-behaved model of the same variables and shocks"""
    o = pick_model(rng, tries=10, nonlinear=False, n=len(spec['endog']), ns=len(spec['stoch']), plain=True, sprinkle=False)
    if o is None: return None
    m = dict(zip(o['endog'], spec['endog'])); m.update(zip(o['stoch'], spec['stoch']))
    return [relabel(q, m) for q in o['eqs']]


def relabel(x, m):
    if not isinstance(x, list): return x
    if x and x[0] in ('v', 'e'): return [x[0], m[x[1]]] + x[2:]
    return [relabel(t, m) if isinstance(t, list) else t for t in x]


def replace(x, test, by):
    """replace the leaves that meet the test"""
    if not isinstance(x, list): return x
    if test(x): return by(x)
    return [replace(t, test, by) if isinstance(t, list) else t for t in x]


def kw_text(kw):
    """the model file that says the same"""
    num = lambda x: np.format_float_positional(float(x), trim='0') if isinstance(x, (int, float)) else x
    L = ['var ' + ' '.join(kw['endog']) + ';']
    if kw['stoch']: L.append('varexo ' + ' '.join(kw['stoch']) + ';')
    if kw['params']: L.append('parameters ' + ' '.join(kw['params']) + ';')
    for k in order_defs(kw['params']): L.append(f'{k} = {num(kw["params"][k])};')
    L.append('model;')
    for k, x in kw.get('local_params', {}).items(): L.append(f'# {k} = {x};')
    for q in kw['exprs']: L.append(q + ';')
    L += ['end;', 'initval;']
    for k, s in kw['initial'].items(): L.append(f'{k} = {num(s)};')
    L.append('end;')
    for b, blk in (('terminal', 'endval'), ('historical', 'histval')):
        if kw.get(b):
            L.append(blk + ';')
            for k, s in kw[b].items(): L.append(f'{k} = {num(s)};')
            L.append('end;')
    if kw['shocks']:
        L.append('shocks;')
        for s, d in kw['shocks'].items():
            if 'variance' in d: L.append(f'var {s} = {num(d["variance"])};')
        for s, d in kw['shocks'].items():
            if 'corr' in d: L.append(f'corr {s}, {d["other"]} = {num(d["corr"])};')
            if 'cov' in d: L.append(f'var {s}, {d["other"]} = {num(d["cov"])};')
        L.append('end;')
    return '\n'.join(L) + '\n'


def order_defs(params):
    """definitions after what they use"""
    out = []
    def visit(k):
        if k in out: return
        x = params[k]
        if isinstance(x, str):
            for w in re.findall(r'[A-Za-z_]\w*', x):
                if w in params and w != k: visit(w)
        out.append(k)
    for k in params: visit(k)
    return out


class Plan(object):
    """
    the final definition (as keyword arguments of Model), a first one, and the alterations that lead
    from the first to the final. found by going backwards from the final definition
    """

    def __init__(self, rng, spec, other):
        self.rng, self.spec, self.other = rng, spec, other
        self.final = gen.kwargs_of(spec)
        self.ops = []          # in the order of application
        self.late = []         # parameters added on the way
        self.start = copy.deepcopy(self.final)
        self.eqs = list(spec['eqs'])          # what the start's equations are, as expressions
        self.show = lambda q: ex.show(q, None)

    # each step changes `start` into an earlier definition, and gives the alteration that undoes it
    def unwind(self):
        rng = self.rng
        steps = int(rng.integers(1, 7))
        kinds = ['param', 'param', 'param', 'expr', 'expr', 'insert', 'extra', 'new param', 'def']
        if len(self.start['endog']) > 1: kinds += ['endog', 'endog']
        if len(self.start['stoch']) > 1: kinds += ['stoch', 'stoch']
        kinds += ['determ']
        done = 0
        for _ in range(40):
            if done >= steps: break
            k = str(rng.choice(kinds))
            ops = getattr(self, '_' + k.replace(' ', '_'))()
            if ops:
                self.ops = ops + self.ops; done += 1
        if not self.ops: self.ops = [Op('nothing', lambda md: None, 'nothing')]
        P = self.final['params']
        self.final['params'] = {k: P[k] for k in [k for k in P if k not in self.late] + self.late}

    def _numeric(self):
        return [k for k, v in self.start['params'].items() if not isinstance(v, str)]

    def _param(self):
        rng = self.rng
        ks = self._numeric()
        if not ks: return None
        m = int(rng.integers(1, min(3, len(ks)) + 1))
        ks = [ks[i] for i in rng.choice(len(ks), m, replace=False)]
        to = {k: self.start['params'][k] for k in ks}
        for k in ks:
            v = to[k]
            self.start['params'][k] = round(v*float(rng.uniform(.8, 1.2)) + float(rng.choice([0, .01])), 6)
        how = int(rng.integers(4))
        if how == 0: return [Op('add_params', lambda md: md.add_params(**to), f'add_params({to})')]
        if how == 1: return [Op('params[]', lambda md, k=k: md.params.__setitem__(k, to[k]), f'params[{k}] = {to[k]}', True) for k in ks]
        if how == 2: return [Op('params.update', lambda md: md.params.update(to), f'params.update({to})', True)]
        # to and fro
        w = {k: round(v*.9 + .003, 6) for k, v in to.items()}
        return [Op('add_params', lambda md: md.add_params(**w), f'add_params({w})'), Op('add_params', lambda md: md.add_params(**to), f'add_params({to})')]

    def _def(self):
        """a parameter defined through another one, given a number or another definition before"""
        rng = self.rng
        ks = [k for k, v in self.start['params'].items() if isinstance(v, str)]
        if not ks: return None
        k = ks[int(rng.integers(len(ks)))]
        v = self.start['params'][k]
        x = gen.param_values(self.spec)[k]
        self.start['params'][k] = round(x*1.1 + .01, 6)
        if rng.random() < .5: return [Op('definition', lambda md: md.add_params(**{k: v}), f'add_params({k}={v})')]
        return [Op('params[] definition', lambda md: md.params.__setitem__(k, v), f'params[{k}] = {v}', True)]

    def _new_param(self):
        """a parameter that did not exist, with the equations that use it"""
        rng = self.rng
        loc = ' '.join(str(x) for x in self.start.get('local_params', {}).values()) + ' ' + ' '.join(
            str(v) for v in self.start['params'].values() if isinstance(v, str))
        ks = [k for k in self._numeric() if not re.search(r'\b%s\b' % re.escape(k), loc)]
        if not ks: return None
        k = ks[int(rng.integers(len(ks)))]
        v = self.start['params'].pop(k)
        ops = []
        num = ex.n(v) if v >= 0 else ex.neg(ex.n(-v))
        add = Op('new parameter', lambda md: md.add_params(**{k: v}), f'add_params({k}={v})')
        for i, q in enumerate(self.eqs):
            w = replace(q, lambda t: t[:2] == ['p', k], lambda t: num)
            if w != q:
                ops.append(self._swap(i, w))
        ops.insert(int(rng.integers(len(ops) + 1)), add)
        self.late.insert(0, k)
        return ops

    def _swap(self, i, w):
        """have equation i be w at the start, and the alteration that makes it what it is now"""
        to = self.start['exprs'][i]
        self.eqs[i] = w
        self.start['exprs'][i] = self.show(w)
        if self.rng.random() < .25:
            from pynare.core.expressions import ModelExprs
            obj = ModelExprs.parse(to)
            return Op('exprs[] tree', lambda md: md.exprs.__setitem__(i, obj), f'exprs[{i}] = tree of {to}', True)
        if self.rng.random() < .2:
            m = len(self.eqs)
            return Op('exprs[]', lambda md: md.exprs.__setitem__(i - len(md.exprs) if len(md.exprs) == m else i, to), f'exprs[{i}] = {to}', True)
        return Op('exprs[]', lambda md: md.exprs.__setitem__(i, to), f'exprs[{i}] = {to}', True)

    def _expr(self):
        rng = self.rng
        i = int(rng.integers(len(self.eqs)))
        r = rng.random()
        if self.other is not None and len(self.other) == len(self.eqs) and r < .6 and set(self.start['endog']) == set(self.spec['endog']) \
                and set(self.start['stoch']) == set(self.spec['stoch']):
            if r < .3: return [self._swap(j, self.other[j]) for j in rng.permutation(len(self.eqs))]
            w = self.other[i]
        else:
            y = self.start['endog'][int(rng.integers(len(self.start['endog'])))]
            extra = ex.mul(ex.n(.05), ex.sub(ex.v(y, int(rng.integers(-1, 2))), ex.n(float(self.spec['ss'][y]))) if self.spec['ss'][y] >= 0
                           else ex.add(ex.v(y, -1), ex.n(-float(self.spec['ss'][y]))))
            q = self.eqs[i]
            w = ['=', q[1], ex.add(q[2], extra)] if q[0] == '=' else ex.add(q, extra)
        return [self._swap(i, w)]

    def _insert(self):
        """equation i is not there yet"""
        rng = self.rng
        if len(self.eqs) < 2: return None
        i = int(rng.integers(len(self.eqs)))
        t = self.start['exprs'].pop(i); self.eqs.pop(i)
        if i == len(self.eqs):
            if rng.random() < .6: return [Op('add_exprs', lambda md: md.add_exprs(t), f'add_exprs({t})')]
            return [Op('exprs.append', lambda md: md.exprs.append(t), f'exprs.append({t})', True)]
        return [Op('exprs.insert', lambda md: md.exprs.insert(i, t), f'exprs.insert({i}, {t})', True)]

    def _extra(self):
        """an equation too many"""
        rng = self.rng
        i = int(rng.integers(len(self.eqs) + 1))
        y = self.start['endog'][0]
        q = ['=', ex.v(y), ex.mul(ex.n(.5), ex.v(y, -1))]
        self.eqs.insert(i, q); self.start['exprs'].insert(i, self.show(q))
        return [Op('del exprs[]', lambda md: md.exprs.__delitem__(i), f'del exprs[{i}]', True)]

    def _endog(self):
        """the last variable is not there yet"""
        rng = self.rng
        if len(self.start['endog']) < 2 or len(self.eqs) < 2: return None
        names = [self.start['endog'][-1]]
        if len(self.start['endog']) > 2 and len(self.eqs) > 2 and rng.random() < .3: names.insert(0, self.start['endog'][-2])
        init = {y: self.start['initial'].pop(y) for y in names}
        self.start['endog'] = self.start['endog'][:-len(names)]
        ops = []
        # drop as many equations as variables; the others do without them
        for i, q in enumerate(self.eqs):
            w = replace(q, lambda t: t[0] == 'v' and t[1] in names, lambda t: ex.n(init[t[1]]) if init[t[1]] >= 0 else ex.neg(ex.n(-init[t[1]])))
            if w != q: ops.append(self._swap(i, w))
        texts = [self.show(q) for q in self.eqs]
        tail = len(self.eqs) - len(names)
        add = self._final_tail(names, tail, ops)
        r = rng.random()
        if len(names) == 1 and r < .4:
            y = names[0]; x = init[y]
            op = Op('add_endog', lambda md: md.add_endog(y, initial=x), f'add_endog({y}, initial={x})')
        elif r < .8:
            op = Op('add_endog', lambda md: md.add_endog(list(names), initial=dict(init)), f'add_endog({names}, initial={init})')
        else:
            two = [Op('add_endog', lambda md, y=y: md.add_endog([y], initial={y: init[y]}), f'add_endog([{y}])') for y in names]
            return self._mix(ops, add + two)
        return self._mix(ops, add + [op])

    def _mix(self, ops, more):
        """one after the other, or interleaved"""
        r = self.rng.random()
        if r < .4: return more + ops
        if r < .8: return ops + more
        out, a, b = [], list(ops), list(more)
        while a or b:
            out.append((a if (a and (not b or self.rng.random() < .5)) else b).pop(0))
        return out

    def _final_tail(self, names, tail, ops):
        """take the last equations away; they are added, in their present final form"""
        to = {}
        for op in list(ops):
            m = re.match(r'exprs\[(\d+)\]', op.text)
            if m and int(m.group(1)) >= tail: ops.remove(op); to[int(m.group(1))] = op
        texts = []
        for i in range(tail, len(self.eqs)):
            t = self.start['exprs'][i]
            if i in to: t = to[i].text.split(' = ', 1)[1].replace('tree of ', '', 1)
            texts.append(t)
        del self.eqs[tail:]; del self.start['exprs'][tail:]
        rng = self.rng
        if len(texts) == 1 and rng.random() < .5: return [Op('add_exprs', lambda md: md.add_exprs(texts[0]), f'add_exprs({texts[0]})')]
        if rng.random() < .5: return [Op('add_exprs', lambda md: md.add_exprs(list(texts)), f'add_exprs({texts})')]
        return [Op('exprs.extend', lambda md: md.exprs.extend(list(texts)), f'exprs.extend({texts})', True)]

    def _stoch(self):
        """the last shock is not there yet"""
        rng = self.rng
        if len(self.start['stoch']) < 2: return None
        s = self.start['stoch'][-1]
        # nobody else may refer to it
        if any(d.get('other') == s for k, d in self.start['shocks'].items() if k != s): return None
        two = self.start['stoch'][-2:]
        many = len(self.start['stoch']) > 2 and rng.random() < .5 and not any(
            d.get('other') in two for k, d in self.start['shocks'].items())
        gone = two if many else [s]
        self.start['stoch'] = self.start['stoch'][:-len(gone)]
        d = [self.start['shocks'].pop(k, None) for k in gone][-1]
        ops = []
        for i, q in enumerate(self.eqs):
            w = replace(q, lambda t: t[0] == 'e' and t[1] in gone, lambda t: ex.n(0))
            if w != q: ops.append(self._swap(i, w))
        if many:
            # several at once, with the same moments
            v = round(float(rng.uniform(.2, 3)), 3)
            for k in gone: self.final['shocks'][k] = dict(variance=v)
            op = Op('add_stoch several', lambda md: md.add_stoch(list(gone), variance=v), f'add_stoch({gone}, variance={v})')
        elif d is None: op = Op('add_stoch', lambda md: md.add_stoch(s), f'add_stoch({s})')
        elif rng.random() < .5: op = Op('add_stoch', lambda md: md.add_stoch(s, **d), f'add_stoch({s}, {d})')
        elif rng.random() < .5: op = Op('add_stoch', lambda md: md.add_stoch([s], **d), f'add_stoch([{s}], {d})')
        else: op = Op('add_stoch', lambda md: md.add_stoch([s], shocks={s: dict(d)}), f'add_stoch([{s}], shocks={d})')
        return self._mix(ops, [op])

    def _determ(self):
        if self.start.get('determ') or self.final.get('determ'): return None
        taken = set(self.final['endog']) | set(self.final['stoch']) | set(self.final['params']) | set(self.final.get('local_params', {}))
        s = gen.names(self.rng, ['d_x', 'tau_d'], 1, taken)[0]
        self.final['determ'] = [s]
        r = self.rng.random()
        if r < .4: return [Op('add_determ', lambda md: md.add_determ(s), f'add_determ({s})')]
        d = dict(periods=int(self.rng.integers(0, 4)), values=round(float(self.rng.uniform(-2, 2)), 2))
        self.final['shocks'][s] = d
        if r < .7: return [Op('add_determ', lambda md: md.add_determ([s], **d), f'add_determ([{s}], {d})')]
        return [Op('add_determ', lambda md: md.add_determ(s, shocks={s: dict(d)}), f'add_determ({s}, shocks={d})')]

    def from_nothing(self):
        """everything is added to an empty model"""
        rng, kw = self.rng, self.final
        if kw.get('local_params'):
            # cannot be added; write them out
            sub = {k: x for k, x in self.spec['locals']}
            self.spec['locals'] = []
            self.spec['eqs'] = [replace(q, lambda t: t[0] == 'p' and t[1] in sub, lambda t: sub[t[1]]) for q in self.spec['eqs']]
            self.final = kw = gen.kwargs_of(self.spec)
        self.start = {}
        P = dict(kw['params'])
        a = [Op('add_params', lambda md: md.add_params(**P), f'add_params({P})')] if P else []
        if len(P) > 1 and rng.random() < .5:
            ks = order_defs(P)
            a = [Op('add_params', lambda md, k=k: md.add_params(**{k: P[k]}), f'add_params({k}={P[k]})') for k in ks]
            self.final['params'] = {k: P[k] for k in ks}
        E, I = list(kw['endog']), dict(kw['initial'])
        b = [Op('add_endog', lambda md: md.add_endog(list(E), initial=dict(I)), f'add_endog({E}, {I})')]
        if rng.random() < .5:
            b = [Op('add_endog', lambda md, y=y: md.add_endog(y, initial=I[y]), f'add_endog({y}, {I[y]})') for y in E]
        S, D = list(kw['stoch']), copy.deepcopy(kw['shocks'])
        c = []
        if S:
            c = [Op('add_stoch', lambda md: md.add_stoch(list(S), shocks=copy.deepcopy(D)), f'add_stoch({S}, {D})')]
            if rng.random() < .5:
                c = [Op('add_stoch', lambda md, s=s: md.add_stoch(s, **D.get(s, {})), f'add_stoch({s}, {D.get(s, {})})') for s in S]
        Q = list(kw['exprs'])
        d = [Op('add_exprs', lambda md: md.add_exprs(list(Q)), f'add_exprs({Q})')]
        if rng.random() < .5:
            d = [Op('add_exprs', lambda md, q=q: md.add_exprs(q), f'add_exprs({q})') for q in Q]
        ops = []
        lists = [a, b, c, d]
        if rng.random() < .5:
            for j in rng.permutation(4): ops += lists[j]
        else:
            while any(lists):
                l = lists[rng.integers(4)]
                if l: ops.append(l.pop(0))
        self.ops = ops


# ------------------------------------------------------------------------------ C22

class Tracked(object):
    """a model in the pool, with the definition it should have and the order it was last solved at"""
    def __init__(self, md, kw, name):
        self.md, self.kw, self.name, self.order, self.spoilt = md, kw, name, None, False


class Baseline(object):
    """what a model nobody has touched reports; every item from a model of its own"""
    def __init__(self): self.known = {}

    def __call__(self, kw, order, item):
        from pynare import Model
        key = (repr(kw), order if item in SOLVED or item == 'local_params' else None, item)
        if key not in self.known:
            md = Model(**copy.deepcopy(kw))
            if order and item in SOLVED: md.solve(order=order)
            self.known[key] = copy.deepcopy(look(md, item))
        return self.known[key]


def freeze(x):
    """a comparable copy of what a caller passed in or got back"""
    if isinstance(x, np.ndarray): return ('array', x.shape, str(x.dtype), x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict): return ('dict', [(repr(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)): return (type(x).__name__, [freeze(v) for v in x])
    if hasattr(x, 'to_numpy'): return freeze(x.to_numpy())
    if isinstance(x, (str, int, float, bool, type(None))): return repr(x)
    from pynare.parsing import ast
    if isinstance(x, ast.AST): return ('tree', tree(x))
    return type(x).__name__


def tree(x, depth=0):
    """everything in a syntax tree"""
    from pynare.parsing import ast
    if isinstance(x, ast.AST):
        d = getattr(x, '__dict__', {})
        return (type(x).__name__, [(k, tree(v, depth + 1)) for k, v in sorted(d.items())]) if depth < 60 else '...'
    if isinstance(x, (list, tuple)): return [tree(t, depth + 1) for t in x]
    t = getattr(x, '__dict__', None)
    if t is not None and hasattr(x, 'value'): return (type(x).__name__, repr(x.value))
    return repr(x) if isinstance(x, (str, int, float, bool, type(None))) else type(x).__name__


ARRAYS = ('paths', 'shocks', 'impulse', 'gy', 'gu', 'ghxx', 'ghxu', 'ghuu', 'del2', 'matrices', 'array', 'values')

def handed_out(obj):
    """the arrays a result holds"""
    out = []
    def take(x):
        if isinstance(x, np.ndarray) and x.dtype != object: out.append(x)
        elif isinstance(x, (list, tuple)):
            for t in x: take(t)
        elif hasattr(x, 'to_numpy'): out.append(x.to_numpy(copy=False) if x.shape else x)
    take(obj)
    for a in ARRAYS:
        try: take(getattr(obj, a, None))
        except Hang: raise
        except Exception: pass
    return out


class C22(Check):
    prop = 'C22'
    rule = ('one count per distinct history of computations (kinds, on which model of the pool); after each step reports of models in the pool '
            'are compared with those of models built for that single question')
    assumptions = ['simulate(order=...) solves the model again at that order, as documented',
                   'after solving with constraints, solution-dependent results are judged once the model is solved without them again',
                   'random draws are not compared']
    sizes = dict(quick=150, thorough=1500)
    caps = dict(quick=270, thorough=790)

    def gen(self, rng, i, tier):
        cons = None
        if rng.random() < .3:
            from vmon import chk_occbin
            spec, cs = chk_occbin.workload(rng, int(rng.choice([1, 1, 2])))
            if spec is None: return None
            cons = [dict(bind=chk_occbin.cond(c['bind']), relax=chk_occbin.cond(c['relax']),
                         exprs={str(k): ex.show(x) for k, x in c['exprs'].items()}) for c in cs]
        else:
            spec = pick_model(rng, nonlinear=rng.random() < .5, n=int(rng.choice([1, 2, 2, 3, 3, 4])), ns=int(rng.choice([1, 2, 2, 3])))
            if spec is None: return None
            if rng.random() < .3: add_local(rng, spec)
        other = sibling(rng, spec) if rng.random() < .6 and not spec['locals'] else None
        route = str(rng.choice(['kwargs', 'kwargs', 'outline', 'file']))
        more, moments = {}, {}
        if rng.random() < .6:
            # boundary values, many of them zero; shocks that do not move
            val = lambda: float(rng.choice([0, 0, round(float(rng.normal()), 2)]))
            for b in ('terminal', 'historical'):
                if rng.random() < .6: more[b] = {y: val() for y in spec['endog'] if rng.random() < .7}
            if route == 'kwargs':
                more['name'] = str(rng.choice(['', 'mine', 'a model']))
                if rng.random() < .4:
                    more['determ'] = ['d_0', 'd_1']
                    if rng.random() < .7: moments['d_0'] = dict(periods=int(rng.integers(0, 3)), values=float(rng.integers(0, 3)))
            s = spec['stoch'][-1] if spec['stoch'] else None
            if s and rng.random() < .5 and not any(x[0] in ('corr', 'cov') for x in spec['shocks']):
                r = rng.random()
                if r < .5: moments[s] = dict(variance=0.0)
                elif len(spec['stoch']) > 1: moments[s] = dict(variance=2.0, other=spec['stoch'][0], corr=0.0)
        return dict(spec=spec, cons=cons, other=other, seed=int(rng.integers(1 << 31)), steps=int(rng.integers(4, 15)),
                    route=route, more=more, moments=moments)

    def run(self, case, mon):
        warnings.simplefilter('ignore')
        import matplotlib
        matplotlib.use('Agg')
        from pynare import Model
        from pynare.parsing import read_model
        rng = np.random.default_rng(case['seed'])
        self.mon, self.rng, self.case = mon, rng, case
        spec = case['spec']
        kw = dict(gen.kwargs_of(spec), **copy.deepcopy(case.get('more', {})))
        kw['shocks'] = dict(kw['shocks'], **case.get('moments', {}))
        base = self.base = Baseline()
        for o in (1, 2):
            if refused(base(kw, o, 'matrices')): raise Skip(f'the model cannot be solved')
        # two models out of the same objects
        self.pool, self.inputs, self.results, self.log = [], [], [], []
        if case['route'] == 'kwargs':
            shared = copy.deepcopy(kw)
            if rng.random() < .5:
                from pynare.core.expressions import ModelExprs
                shared['exprs'] = [ModelExprs.parse(q) for q in shared['exprs']]
            self.watch('definition', shared)
            self.pool.append(Tracked(Model(**shared), kw, 'first'))
            self.pool.append(Tracked(Model(**shared), kw, 'second'))
            if case['other']:
                kw3 = dict(copy.deepcopy(kw), exprs=[ex.show(q) for q in case['other']])
                if not any(refused(base(kw3, o, 'matrices')) for o in (1, 2)):
                    self.pool.append(Tracked(Model(**dict(shared, exprs=kw3['exprs'])), kw3, 'third'))
                    mon.tally('a different model out of shared objects')
        elif case['route'] == 'outline':
            outline = read_model(kw_text(kw), 'dynare')
            self.pool.append(Tracked(Model.from_outline(outline), kw, 'first'))
            self.pool.append(Tracked(Model.from_outline(outline), kw, 'second'))
        else:
            self.pool.append(Tracked(gen.from_text(kw_text(kw)), kw, 'first'))
            self.pool.append(Tracked(gen.from_text(kw_text(kw)), kw, 'second'))
        mon.tally('route:' + case['route'])
        # the definition says the same when it comes from a file, except for how numbers are written
        for _ in range(case['steps']):
            t = self.pool[int(rng.integers(len(self.pool)))]
            kind = self.step(t)
            self.log.append(f'{kind} on {t.name}')
            mon.tally('step:' + kind)
            m = int(rng.integers(1, 4))
            for u in [t] + [self.pool[int(k)] for k in rng.integers(len(self.pool), size=2)]:
                for k in rng.choice(list(ITEMS), m, replace=False): self.judge(u, str(k))
            self.unchanged()
        # everything, from whoever is still there
        for u in self.pool:
            for k in rng.permutation(list(ITEMS)): self.judge(u, str(k))
        self.unchanged()
        mon.seen(case['route'], tuple(self.log))

    # bookkeeping
    def watch(self, what, obj): self.inputs.append((what, obj, freeze(obj)))

    def keep(self, t, what, obj):
        for a in handed_out(obj):
            if len(self.results) < 150: self.results.append((t, what, a, np.array(a, copy=True)))

    def unchanged(self):
        for what, obj, was in self.inputs:
            self.mon.event('inputs compared')
            now = freeze(obj)
            if now != was: self.mon.fail('input changed:' + what, f'after {self.log}: {what} passed by the caller is now {short(now)}; was {short(was)}')
        for t, what, a, was in self.results:
            self.mon.event('results kept compared')
            if a.shape != was.shape or not np.array_equal(a, was, equal_nan=a.dtype.kind in 'fc'):
                self.mon.fail('result changed:' + what, f'after {self.log}: the result of {what} on {t.name} is now {short(a)}; was {short(was)}')

    def judge(self, t, item):
        if t.spoilt and item in SOLVED: return
        md = t.md
        if item == 'order':
            if t.order is not None: self.mon.equal('order', md.solution_order, t.order, f'after {self.log}: solution order of {t.name}')
            return
        order = t.order or 2
        got = look(md, item)
        want = self.base(t.kw, order, item)
        # (shares of one shock need no solution)
        if item in SOLVED and t.order is None and md.solution_order: t.order = 2
        d = same(got, want, 1e-8)
        self.mon.event('reports compared')
        if d: self.mon.fail('disturbed:' + item, f'after {self.log}: {item} of {t.name} (solved at {t.order}) is {d}')

    # one step
    def step(self, t):
        rng, md = self.rng, t.md
        kinds = ['solve1', 'solve2', 'solve', 'simulate', 'simulate init', 'random', 'irf', 'irf several', 'stats', 'model summary', 'stats summary', 'solution summary',
                 'plot', 'copy', 'copy', 'alter', 'alter', 'update', 'regimes', 'sim stats', 'evaluate', 'simulate order', 'names']
        if self.case['cons']: kinds += ['constraints']*6
        kind = str(rng.choice(kinds))
        try:
            getattr(self, '_' + kind.replace(' ', '_'))(t)
        except Hang: raise
        except Refused as err:
            self.mon.tally(f'refused:{kind}')
            # what a model nobody touched can do, this one can
            can = dict(copy='initial', update='initial', solve='matrices', solve1='matrices', solve2='matrices', evaluate='dynamic_repr',
                       names='endog.names').get(kind)
            if can is None and kind in ('simulate', 'simulate init', 'random', 'irf', 'irf several', 'plot', 'sim stats', 'simulate order') and len(t.md.stoch):
                can = 'simulate'
            can = {'model summary': 'summary', 'stats summary': 'stats summary', 'solution summary': 'solution summary', 'stats': 'var_decomp'}.get(kind, can)
            if can and not any(refused(self.base(t.kw, o, can)) for o in (1, 2)):
                self.mon.fail('refused:' + kind, f'after {self.log}: {kind} on {t.name} is refused ({err}), a model nobody touched does it')
        return kind

    def do(self, t, what, thunk, args=(), order=None):
        """call, keep what comes back, and see that the arguments are left alone"""
        was = freeze(list(args))
        try:
            out = thunk()
        except Hang: raise
        except Exception as err:
            if t.md.solution_order and t.order is None: t.order = 2
            if freeze(list(args)) != was: self.mon.fail('input changed:' + what, f'after {self.log}: arguments of {what} are {short(list(args))}; were {short(was)}')
            raise Refused(str(err))
        self.mon.event('calls')
        if freeze(list(args)) != was:
            self.mon.fail('input changed:' + what, f'after {self.log}: arguments of {what} are {short(list(args))}; were {short(was)}')
        for a in args: self.inputs.append((what, a, freeze(a)))
        if len(self.inputs) > 60: del self.inputs[3:13]
        self.keep(t, what, out)
        return out

    def _solve1(self, t): self.do(t, 'solve', lambda: t.md.solve(order=1)); t.order, t.spoilt = 1, False
    def _solve2(self, t): self.do(t, 'solve', lambda: t.md.solve(order=2)); t.order, t.spoilt = 2, False
    def _solve(self, t): self.do(t, 'solve', lambda: t.md.solve()); t.order, t.spoilt = 2, False

    def solved(self, t):
        if t.spoilt: self._solve2(t) if self.rng.random() < .5 else self._solve1(t)

    def touched(self, t):
        if t.order is None and t.md.solution_order: t.order = 2

    def _simulate(self, t):
        self.solved(t); u = fixed_shocks(t.md, int(self.rng.integers(2, 9)))
        if self.rng.random() < .3: u = np.asfortranarray(u)
        if u.shape[1] == 1 and self.rng.random() < .3: u = u[:, 0].copy()
        self.do(t, 'simulate', lambda: t.md.simulate(u), [u]); self.touched(t)

    def _simulate_init(self, t):
        self.solved(t); u = fixed_shocks(t.md, 4); i0 = np.array(t.md.ss.values) + .1
        self.do(t, 'simulate', lambda: t.md.simulate(shocks=u, init=i0), [u, i0]); self.touched(t)

    def _simulate_order(self, t):
        u = fixed_shocks(t.md, 4); o = int(self.rng.integers(1, 3))
        t.order = o; t.spoilt = False
        self.do(t, 'simulate', lambda: t.md.simulate(u, order=o), [u])

    def _random(self, t):
        self.solved(t); self.do(t, 'random simulation', lambda: t.md.simulate(periods=5)); self.touched(t)

    def _irf(self, t):
        self.solved(t); s = t.md.stoch.names
        self.do(t, 'irf', lambda: t.md.impulse_response(str(s[0]), periods=4, size=2)); self.touched(t)

    def _irf_several(self, t):
        self.solved(t); s = [str(x) for x in t.md.stoch.names]
        if self.rng.random() < .5: s = s[::-1]
        self.do(t, 'irf', lambda: t.md.impulse_response(s, periods=4), [s]); self.touched(t)

    def _stats(self, t):
        self.solved(t); k = str(self.rng.choice(['mean', 'var', 'std', 'cov', 'corr', 'autocov', 'autocorr', 'var_decomp']))
        self.do(t, k, lambda: getattr(t.md.stats, k)()); self.touched(t)

    def _model_summary(self, t):
        only = [str(x) for x in self.rng.permutation(['variables', 'eigen', 'stoch', 'params'])[:2]]
        self.do(t, 'model summary', lambda: str(t.md.summary(only=only)), [only])

    def _stats_summary(self, t):
        self.solved(t); only = [str(x) for x in self.rng.permutation(['moments', 'corr', 'autocorr', 'decomp'])[:3]]
        self.do(t, 'statistics summary', lambda: str(t.md.stats.summary(only=only)), [only]); self.touched(t)

    def _solution_summary(self, t):
        self.solved(t); self.touched(t)
        self.do(t, 'solution summary', lambda: str(t.md.solution.summary(thresh=[None, 0, 3][int(self.rng.integers(3))])))

    def _plot(self, t):
        import matplotlib.pyplot as plt
        self.solved(t)
        r = self.do(t, 'simulate', lambda: t.md.simulate(periods=4) if self.rng.random() < .5 else t.md.impulse_response(periods=4)); self.touched(t)
        lay = [len(t.md.endog), 1] if self.rng.random() < .3 else str(self.rng.choice(['rect', 'square', 'row', 'column']))
        kws = dict(linewidth=2)
        self.do(t, 'plot', lambda: r.plot(layout=lay, **kws), [lay, kws]); plt.close('all')

    def _sim_stats(self, t):
        self.solved(t); r = self.do(t, 'simulate', lambda: t.md.simulate(periods=20)); self.touched(t)
        self.do(t, 'simulated correlations', lambda: r.corr(drop=2)); self.do(t, 'simulated autocorrelations', lambda: r.autocorr(p=2))

    def _evaluate(self, t):
        x = dyn_point(t.md); s = np.array(t.md.ss.values) + .01
        self.do(t, 'dynamic_repr', lambda: t.md.dynamic_repr(x), [x]); self.do(t, 'steady_repr', lambda: t.md.steady_repr(s), [s])
        self.do(t, 'jacobian', lambda: t.md.jacobian.array); self.do(t, 'sigma', lambda: t.md.sigma)

    def _names(self, t):
        self.do(t, 'names', lambda: (t.md.endog.names, t.md.stoch.names, repr(t.md), repr(t.md.exprs), repr(t.md.params), repr(t.md.endog), repr(t.md.stats)))

    def _update(self, t): self.do(t, 'update', lambda: t.md.update())

    def _copy(self, t):
        if len(self.pool) > 5: return
        md = self.do(t, 'copy', lambda: t.md.copy())
        self.mon.equal('name of a copy', (md.name, repr(md), type(md).__name__), (t.md.name, repr(t.md), type(t.md).__name__), f'after {self.log}: copy of {t.name}')
        self.pool.append(Tracked(md, t.kw, f'copy {len(self.pool)} of {t.name}'))

    def _alter(self, t):
        """only this model changes"""
        rng, md = self.rng, t.md
        kw = copy.deepcopy(t.kw)
        r = rng.random()
        nums = [k for k, v in kw['params'].items() if not isinstance(v, str)]
        if r < .4 and nums:
            k = nums[int(rng.integers(len(nums)))]; x = round(kw['params'][k]*.97 + .001, 6)
            kw['params'][k] = x
            if rng.random() < .5: act = lambda: md.add_params(**{k: x})
            else: act = lambda: (md.params.__setitem__(k, x), md.update())
        elif r < .7:
            i = int(rng.integers(len(kw['exprs']))); y = kw['endog'][int(rng.integers(len(kw['endog'])))]
            q = kw['exprs'][i]; s = kw['initial'][y]
            t_ = f' + {round(rng.uniform(.005, .03), 4)}*({y} - ({s!r}))'
            q = q + t_
            kw['exprs'][i] = q
            act = lambda: (md.exprs.__setitem__(i, q), md.update())
        elif r < .85:
            s = f'extra_{len(kw["stoch"])}'
            kw['stoch'] = kw['stoch'] + [s]; kw['shocks'] = dict(kw['shocks'], **{s: dict(variance=.5)})
            i = int(rng.integers(len(kw['exprs']))); q = kw['exprs'][i] + f' + 0.1*{s}'; kw['exprs'][i] = q
            act = lambda: (md.add_stoch(s, variance=.5), md.exprs.__setitem__(i, q), md.update())
        else:
            y = f'more_{len(kw["endog"])}'; z = kw['endog'][0]
            q = f'{y} = 0.5*{y}(-1) + {z}*0.2'; s0 = .4*kw['initial'][z]
            kw['endog'] = kw['endog'] + [y]; kw['exprs'] = kw['exprs'] + [q]; kw['initial'] = dict(kw['initial'], **{y: s0})
            act = lambda: (md.add_endog(y, initial=s0), md.add_exprs(q))
        # only what remains a proper model
        if any(refused(self.base(kw, o, 'matrices')) for o in (1, 2)): return
        self.results = [r for r in self.results if r[0] is not t]
        act(); t.kw = kw
        o = int(rng.integers(1, 3))
        md.solve(order=o); t.order, t.spoilt = o, False
        self.mon.event('alterations')

    def _regimes(self, t):
        from pynare.regimes import RegimeSwitchingModel
        i = int(self.rng.integers(len(t.kw['exprs'])))
        q = t.kw['exprs'][i] + f' + 0.001*{t.kw["endog"][0]}'
        e = {i: q} if self.rng.random() < .5 else [{i: q}, {i: q}]
        r = self.do(t, 'regimes', lambda: RegimeSwitchingModel(t.md, exprs=e), [e])
        try: r[1].solve(order=1); r[1].simulate(periods=3)
        except Hang: raise
        except Exception: pass

    def _constraints(self, t):
        cons = self.case['cons']
        e = [{int(k): x for k, x in c['exprs'].items()} for c in cons]
        if max(k for d in e for k in d) >= len(t.kw['exprs']): return
        con = [(c['bind'], c['relax']) for c in cons]
        if len(con) == 1: con = con[0]; e = e[0] if self.rng.random() < .5 else e
        else: e = e + [{**e[0], **e[1]}]
        if self.rng.random() < .3 and isinstance(con, tuple): con = list(con)
        s = [str(x) for x in t.md.stoch.names]
        u = np.round(self.rng.normal(size=(int(self.rng.integers(1, 4)), len(s)))*float(self.rng.choice([.5, 3, 6])), 2)
        init = np.array(t.md.ss.values) if self.rng.random() < .3 else None
        args = dict(constraint=con, exprs=e, exog=s, shocks=u, periods=25)
        if init is not None: args['init'] = init
        t.spoilt = True
        self.do(t, 'constraints', lambda: t.md.solve(**args), [con, e, s, u, init])
        self.mon.tally('solved with constraints')
        if self.rng.random() < .7: self.solved(t)


class Refused(Exception): pass


CHECKS = [C21, C22]
