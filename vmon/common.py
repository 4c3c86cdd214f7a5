"""pieces shared by the checks"""
import numpy as np
from vmon import ex, gen, oracle
from vmon.rt import Skip


def off_start(spec, rng):
    """
    the same model, its starting values near its steady state rather than on it: what is to be
    evaluated at the steady state must not be evaluated at the starting values
    """
    r = .3 if not spec.get('nonlinear') else .01
    spec['start'] = {y: float(np.round(s + r*max(.3, abs(s))*rng.uniform(-1, 1), 4)) for y, s in spec['ss'].items()}
    return spec


def pick_model(rng, tries=40, well=True, want=None, start=0., **kw):
    """a random model meeting the usual preconditions: regular steady state, comfortably determinate"""
    for _ in range(tries):
        spec = gen.gen_model(rng, **kw)
        if not oracle.classes_ok(spec): continue
        try:
            d, fo = oracle.analyse(spec)
        except oracle.Unfit:
            continue
        if not oracle.regular_ss(d): continue
        if well and not fo.well(): continue
        S = gen.sigma_of(spec)
        if len(S):
            w = np.linalg.eigvalsh(S)
            if w[0] < min(1e-4, 1e-3*w[-1]) or w[0] < 1e-8: continue
        if want is not None and not want(spec, d, fo): continue
        if start and rng.random() < start: off_start(spec, rng)
        return spec
    return None


def shape_key(spec):
    """what kind of model this is: the classes of its variables, the number of shocks"""
    T = oracle.Timing(spec['endog'], spec['eqs'])
    return (len(T.static), len(T.back), len(T.mixed), len(T.fwd), len(spec['stoch']))


def tally_model(mon, spec):
    a = shape_key(spec)
    for nm, c in zip(('static', 'backward', 'mixed', 'forward'), a):
        if c: mon.tally('has:' + nm)
    mon.tally(f'endog:{len(spec["endog"])}', f'shocks:{len(spec["stoch"])}', f'states:{a[1]+a[2]}')
    if spec.get('nonlinear'): mon.tally('nonlinear')
    if any(s[0] in ('corr', 'cov') for s in spec.get('shocks', [])): mon.tally('correlated shocks')


def quiet_build(spec, route='kwargs'):
    """
    the model, or Skip: for properties that are about what happens after the model is built
    (building is judged by C02, C06 and C10)
    """
    try:
        return gen.build(spec, route)
    except Exception as err:
        raise Skip(f'model could not be built: {type(err).__name__}')


def quiet_solve(md, order):
    try:
        return md.solve(order=order)
    except Exception as err:
        raise Skip(f'model could not be solved: {type(err).__name__}')


def near_ss(md, spec, tol=None):
    """the reported steady state, where it is near the intended one (C08 judges that it is)"""
    if tol is None: tol = 1e-2 if spec.get('start') else 1e-5
    ss = np.asarray(md.ss.values, dtype=float)
    want = np.array([spec['ss'][y] for y in spec['endog']])
    if ss.shape != want.shape or not np.isfinite(ss).all() or np.abs(ss - want).max() > tol*max(1, np.abs(want).max()):
        raise Skip('reported steady state is not the intended one')
    return ss


def textbook(start=True):
    """the model files that come with the package and the monitors, read by the independent reader, as specifications"""
    import glob, os, scipy.optimize as so
    from vmon import ref
    root = os.environ.get('VMON_REPO', '/repo')
    out, texts = [], []
    for f in sorted(glob.glob(root + '/pynare/examples/pynare/*') + glob.glob(root + '/tests/models/*')) + sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models', '*'))):
        if not f.endswith(('.mod', '.txt')): continue
        text = open(f).read()
        if text.split() in texts: continue
        texts.append(text.split())
        try: r = ref.read(text)
        except (ref.Bad, ref.Unsure): continue
        num = lambda x: ['n', np.format_float_positional(float(x), trim='-')]
        neg = lambda x: num(x) if x >= 0 else ['neg', num(-x)]
        q = r['stoch']
        spec = dict(endog=r['endog'], stoch=q, params=[[k, neg(v)] for k, v in r['pvals'].items()], locals=[[k, neg(v)] for k, v in r['lvals'].items()],
                    eqs=r['eqs'], nonlinear=True, shocks=[['var', s, num(r['sigma'][i][i])] for i, s in enumerate(q)], label=os.path.basename(f))
        spec['shocks'] += [['cov', q[i], q[j], neg(r['sigma'][i][j])] for i in range(len(q)) for j in range(i) if r['sigma'][i][j]]
        b = r['bounds'].get('initval', {})
        try:
            x0 = np.array([b.get(y, 0.) for y in r['endog']], dtype=float)
            x = so.fsolve(lambda x: oracle.Deriv(spec, x).f, x0, xtol=1e-14)
            spec['ss'] = {y: float(v) for y, v in zip(r['endog'], x)}
            d, fo = oracle.analyse(spec)
        except (KeyError, oracle.Unfit): continue
        S = gen.sigma_of(spec)
        if not oracle.classes_ok(spec) or not oracle.regular_ss(d) or not fo.well() or np.linalg.eigvalsh(S)[0] < 1e-8: continue
        spec['nonlinear'] = bool(np.abs(d.hess).max(initial=0) > 1e-12)
        if start and spec['nonlinear']: off_start(spec, np.random.default_rng(len(out)))
        out.append(spec)
    return out
