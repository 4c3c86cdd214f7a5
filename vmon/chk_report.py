"""C23-C24: what is printed and what is drawn"""
import copy, math, re, warnings
import numpy as np
from vmon import ex, gen, oracle
from vmon.rt import Check, Skip, Hang, short
from vmon.common import *


# -------------------------------------------------------------------------- reading texts

class Misprint(Exception): pass


def is_num(s):
    return re.fullmatch(r'[-+]?(\d+(\.\d*)?|\.\d+|nan|inf)', s) is not None


def tokens(line, k, what):
    """the label of a row and its last k entries"""
    w = line.split()
    if len(w) < k: raise Misprint(f'{what}: {len(w)} entries where {k} numbers belong: {line!r}')
    lab, nums = (w[:-k], w[-k:]) if k else (w, [])
    for s in nums:
        if not is_num(s): raise Misprint(f'{what}: {s!r} is not a number: {line!r}')
    return ' '.join(lab), nums


def blocks(text):
    return [b for b in text.split('\n\n') if b.strip()]


class Judge(object):
    def __init__(self, mon, sig, where):
        self.mon, self.sig, self.where = mon, sig, where

    def number(self, mech, tok, want, what):
        """the text is the value rounded to sig digits"""
        mon = self.mon
        if want is None: return
        mon.event(mech)
        want = float(want)
        if want != want or math.isinf(want):
            if not (float(tok) == want or (want != want and float(tok) != float(tok))):
                mon.fail(mech, f'{self.where}: {what}: prints {tok}, the value is {want!r}')
            return
        got = float(tok)
        digits = len(tok.split('.')[1]) if '.' in tok else 0
        if digits != self.sig and math.isfinite(got):
            mon.fail('digits', f'{self.where}: {what}: prints {tok}, with {digits} digits instead of {self.sig}')
        slack = 0.5*10.0**-self.sig*(1 + 1e-6) + 1e-12*max(1.0, abs(want)) + 2e-11
        if not abs(got - want) <= slack:
            mon.fail(mech, f'{self.where}: {what}: prints {tok}, the value is {want!r}')

    def table(self, mech, lines, rows, cols, values):
        """a heading with the columns, and a line for each row"""
        mon = self.mon
        head = lines[0].split()
        want = ' '.join(cols).split()
        mon.event('column labels')
        if head != want:
            mon.fail(mech + ' columns', f'{self.where}: columns {head}, expected {want}'); return
        if len(lines) - 1 != len(rows):
            mon.fail(mech + ' rows', f'{self.where}: {len(lines) - 1} rows, expected {len(rows)} ({rows}): {lines}'); return
        for line, r, vals in zip(lines[1:], rows, values):
            lab, nums = tokens(line, len(cols), mech)
            mon.event('row labels')
            if lab != r: mon.fail(mech + ' rows', f'{self.where}: row {lab!r} where {r!r} belongs: {line!r}'); continue
            for c, s, v in zip(cols, nums, vals): self.number(mech, s, v, f'row {r}, column {c}')


# ------------------------------------------------------------------------- the workloads

LONG = ['consumption_of_households', 'x', 'real_interest_rate_gap_', 'productivity_in_sector_one', 'unemployment_benefits_total']

def reporting_model(rng):
    spec = pick_model(rng, nonlinear=rng.random() < .5, n=int(rng.choice([1, 2, 3, 3, 4, 5])), ns=int(rng.choice([1, 1, 2, 2, 3])) if rng.random() < .95 else 0)
    if spec is None: return None
    if rng.random() < .4:
        # long names
        m = {}
        taken = set(spec['endog']) | set(spec['stoch']) | {k for k, _ in spec['params']}
        for y in list(spec['endog']) + list(spec['stoch']):
            l = LONG[int(rng.integers(len(LONG)))] + str(len(m))
            if rng.random() < .4 and l not in taken: m[y] = l; taken.add(l)
        spec = dict(spec, endog=[m.get(y, y) for y in spec['endog']], stoch=[m.get(y, y) for y in spec['stoch']],
                    eqs=[rename_all(q, m) for q in spec['eqs']], ss={m.get(k, k): v for k, v in spec['ss'].items()},
                    shocks=[[s[0]] + [m.get(t, t) if isinstance(t, str) else t for t in s[1:]] for s in spec['shocks']])
    if rng.random() < .4:
        # a variable of another magnitude
        big = gen.num(float(rng.choice([12, 987.65, 43210.5, .00031, -250.75, -0.0042])), 6)
        nm = gen.names(rng, ['level_', 'pop', 'wealth'], 1, set(spec['endog']) | set(spec['stoch']) | {k for k, _ in spec['params']})[0]
        y = spec['endog'][int(rng.integers(len(spec['endog'])))]
        s = spec['ss'][y]
        d = ex.sub(ex.v(y), ex.n(s)) if s >= 0 else ex.add(ex.v(y), ex.n(-s))
        scale = float(rng.choice([1, 30, .0004]))
        rhs = ex.add(ex.n(abs(big)) if big >= 0 else ex.neg(ex.n(abs(big))), ex.mul(ex.n(scale), d))
        spec['endog'] = spec['endog'] + [nm]; spec['ss'] = dict(spec['ss'], **{nm: big})
        spec['eqs'] = spec['eqs'] + [['=', ex.v(nm), rhs]]
    if rng.random() < .4:
        k = gen.names(rng, ['scale_', 'n_obs', 'chi'], 1, set(spec['endog']) | set(spec['stoch']) | {k for k, _ in spec['params']})[0]
        x = float(rng.choice([123456.789, 1e-7, 99.9999996, .5, 1000000., 0.]))
        spec['params'] = spec['params'] + [[k, ex.n(x)]]
    if rng.random() < .3:
        spec['shocks'] = [['var', s, ex.n(gen.num(float(rng.choice([1e4, 2.5e-5, 31.7, .6])), 7))] for s in spec['stoch']]
    return spec


def rename_all(x, m):
    if not isinstance(x, list): return x
    if x and x[0] in ('v', 'e'): return [x[0], m.get(x[1], x[1])] + x[2:]
    return [rename_all(t, m) if isinstance(t, list) else t for t in x]


# ------------------------------------------------------------------------------ C23

class C23(Check):
    prop = 'C23'
    rule = ('one count per distinct (kind of summary, digits, threshold, blocks asked for, number of variables, states and shocks); '
            'the printed text is read back and every number compared with the computed quantity of that name')
    assumptions = ['the texts are compared with what the model itself computes (C11, C12, C16, C17 judge that)']
    sizes = dict(quick=900, thorough=9000)
    caps = dict(quick=200, thorough=700)

    def gen(self, rng, i, tier):
        spec = reporting_model(rng)
        if spec is None: return None
        return dict(spec=spec, seed=int(rng.integers(1 << 31)), order=int(rng.integers(1, 3)))

    def run(self, case, mon):
        warnings.simplefilter('ignore')
        spec = case['spec']
        rng = np.random.default_rng(case['seed'])
        md = quiet_build(spec)
        self.spec, self.order = spec, case['order']
        quiet_solve(md, case['order'])
        for kind in ('model', 'statistics', 'solution'):
            for _ in range(3):
                sig = int(rng.choice([6, 1, 2, 3, 4, 5, 8, 10]))
                pad = int(rng.choice([4, 0, 2, 9]))
                try:
                    getattr(self, kind)(md, rng, mon, sig, pad)
                except Misprint as m:
                    mon.fail('misprint ' + kind, f'{m}')
        tally_model(mon, spec)

    def pick(self, rng, features, kw):
        """which blocks to ask for"""
        r = rng.random()
        shown = list(features)
        if r < .3:
            k = features[int(rng.integers(len(features)))]; kw['only'] = k; shown = [k]
        elif r < .5:
            ks = [features[int(t)] for t in rng.permutation(len(features))[:int(rng.integers(1, len(features) + 1))]]
            kw['only'] = ks if rng.random() < .5 else tuple(ks); shown = ks
        if rng.random() < .4:
            for k in features:
                if rng.random() < .4: kw[k] = False
            shown = [k for k in shown if kw.get(k, True) is not False]
        return shown

    def model(self, md, rng, mon, sig, pad):
        kw = dict(sig=sig, pad=pad)
        feats = ['variables', 'eigen', 'stoch', 'params']
        shown = self.pick(rng, feats, kw)
        names = [str(k) for k in md.params]
        chosen = None
        if kw.get('params') is not False and names and rng.random() < .4:
            chosen = [names[int(t)] for t in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
            kw['params'] = chosen
            if rng.random() < .4: chosen = chosen[:1]; kw['params'] = chosen[0]      # one alone can be named without a list
        text = str(md.summary(**kw))
        w = f'model summary {kw}'
        J = Judge(mon, sig, w)
        bs = blocks(text)
        want = {'variables': 'variables:', 'eigen': 'steady-state eigenvalues:', 'stoch': 'covariance of stoch shocks:',
                'params': 'model calibration:' if chosen is None else 'partial model calibration:'}
        # calibration without parameters is a heading only
        heads = [b.split('\n')[0].strip() for b in bs]
        mon.true('blocks', heads == ['model summary:'] + [want[k] for k in shown], lambda: f'{w}: shows {heads}, asked for {shown}')
        if heads != ['model summary:'] + [want[k] for k in shown]: return
        spec = self.spec
        T = oracle.Timing(spec['endog'], spec['eqs'])
        for k, b in zip(shown, bs[1:]):
            L = b.split('\n')[1:]
            if k == 'variables':
                exp = {'variables': len(spec['endog']), 'stochastic shocks': len(spec['stoch']), 'state vars': len(T.back) + len(T.mixed),
                       'forward-looking vars': len(T.fwd) + len(T.mixed), 'static vars': len(T.static)}
                got = {}
                for l in L:
                    m = re.fullmatch(r'\s*number of (.*?):\s*(\d+)\s*', l)
                    if not m: raise Misprint(f'{w}: {l!r}')
                    got[m.group(1)] = int(m.group(2))
                mon.equal('variable counts', got, {a: c for a, c in exp.items() if c}, w)
            elif k == 'eigen':
                eig = np.asarray(md.statespace.eigen)
                if L[0].split() != ['real', 'imag', 'mod']: mon.fail('eigen columns', f'{w}: {L[0]!r}'); continue
                if len(L) - 1 != len(eig): mon.fail('eigen rows', f'{w}: {len(L) - 1} eigenvalues printed of {len(eig)}'); continue
                # in ascending order of modulus; ties come in any order
                left = list(range(len(eig)))
                prev = -1.
                for l in L[1:]:
                    lab, (r, c, m) = tokens(l, 3, 'eigenvalues')
                    if lab: raise Misprint(f'{w}: {l!r}')
                    t = 10.0**-sig*.5*(1 + 1e-6) + 1e-9
                    near = lambda a, b: (a == b) or (a != a and b != b) or abs(a - b) <= t + 1e-12*abs(b)
                    j = next((j for j in left if near(float(r), eig[j].real) and near(float(c), eig[j].imag) and near(float(m), abs(eig[j]))), None)
                    mon.event('eigenvalues')
                    if j is None: mon.fail('eigenvalues', f'{w}: {l!r} is none of the remaining {[complex(eig[j]) for j in left]}'); break
                    left.remove(j)
                    for s in (r, c, m):
                        if math.isfinite(float(s)) and len((s + '.').split('.')[1]) != sig: mon.fail('digits', f'{w}: {s} with {sig} digits')
                    if float(m) < prev - 2*t: mon.fail('eigenvalue order', f'{w}: not in ascending order of modulus: {L[1:]}')
                    prev = float(m)
            elif k == 'stoch':
                s = [str(x) for x in md.stoch.names]
                J.table('covariances', L, s, s, np.asarray(md.sigma))
            else:
                ps = chosen if chosen is not None else names
                if len(L) != len(ps): mon.fail('parameter rows', f'{w}: {len(L)} parameters printed of {len(ps)}'); continue
                # whatever the order, each under its name
                seen = []
                for l in L:
                    m = re.fullmatch(r'\s*(\S+)\s*=\s*(\S+)\s*', l)
                    if not m: raise Misprint(f'{w}: {l!r}')
                    if m.group(1) not in ps: mon.fail('parameter rows', f'{w}: {l!r} is not asked for'); continue
                    seen.append(m.group(1))
                    J.number('parameters', m.group(2), md.params[m.group(1)], m.group(1))
                mon.true('parameter rows', sorted(seen) == sorted(ps), lambda: f'{w}: {sorted(seen)} instead of {sorted(ps)}')
        mon.tally('model summary'); mon.seen('model', sig, tuple(shown), chosen is None, shape_key(spec))

    def statistics(self, md, rng, mon, sig, pad):
        kw = dict(sig=sig, pad=pad)
        feats = ['moments', 'corr', 'autocorr', 'decomp']
        shown = self.pick(rng, feats, kw)
        p = 5
        if kw.get('autocorr') is not False and rng.random() < .5:
            p = int(rng.integers(1, 9)); kw['autocorr'] = p
        text = str(md.stats.summary(**kw))
        w = f'statistics summary {kw}'
        J = Judge(mon, sig, w)
        want = {'moments': 'model moments:', 'corr': 'correlation:', 'autocorr': 'autocorrelation of endogenous variables:', 'decomp': 'variance decomposition:'}
        bs = blocks(text)
        heads = [b.split('\n')[0].strip() for b in bs]
        if not mon.true('blocks', heads == ['statistics summary:'] + [want[k] for k in shown], lambda: f'{w}: shows {heads}, asked for {shown}'): return
        en, sn = [str(x) for x in md.endog.names], [str(x) for x in md.stoch.names]
        st = md.stats
        for k, b in zip(shown, bs[1:]):
            L = b.split('\n')[1:]
            if k == 'moments':
                mean, var = np.asarray(st.mean()), np.asarray(st.var())
                # a variance of zero can come out as a negative one in the last bits
                dust = lambda v: -1e-12*max(1, np.abs(var).max()) < v < 0
                J.table('moments', L, en, ['mean', 'std dev', 'var'], [[m, None, None] if dust(v) else [m, math.sqrt(v) if v >= 0 else math.nan, v] for m, v in zip(mean, var)])
            elif k == 'corr': J.table('correlations', L, en, en, np.asarray(st.corr()))
            elif k == 'autocorr':
                a = np.asarray(st.autocorr(p=p))
                J.table('autocorrelations', L, en, [f'p = {i}' for i in range(1, p + 1)], [[a[i, j, j] for i in range(p)] for j in range(len(en))])
            else: J.table('variance decomposition', L, en, sn, np.asarray(st.var_decomp()))
        mon.tally('statistics summary'); mon.seen('statistics', sig, tuple(shown), p, shape_key(self.spec), self.order)

    def solution(self, md, rng, mon, sig, pad):
        thresh = [None, None, 0, 1, 3, -1, -2][int(rng.integers(7))]
        kw = dict(sig=sig, pad=pad)
        if thresh is not None or rng.random() < .5: kw['thresh'] = thresh
        sol = md.solution
        text = str(sol.summary(**kw))
        w = f'order {self.order} solution summary {kw}'
        J = Judge(mon, sig, w)
        en, sn = [str(x) for x in md.endog.names], [str(x) for x in md.stoch.names]
        n, q = len(en), len(sn)
        dr = np.asarray(md.indexes.dr_order)
        T = oracle.Timing(self.spec['endog'], self.spec['eqs'])
        lagged = set(T.back) | set(T.mixed)
        states = [int(j) for j in dr if int(j) in lagged]          # as the columns come
        sorder = sorted(states)
        fo = sol if self.order == 1 else sol.lower_solution
        rows = {}
        def put(label, col):
            v = np.zeros(n); v[dr] = col
            rows[label] = v
        rows['steady'] = np.asarray(md.ss.values, dtype=float)
        gy, gu = (np.asarray(m) for m in fo.matrices)
        for j, s in enumerate(states): put(f'{en[s]}(-1)', gy[:, j])
        for j, e in enumerate(sn): put(e, gu[:, j])
        order = ['steady'] + [f'{en[s]}(-1)' for s in sorder] + sn
        k = len(states)
        if self.order == 2:
            xx, xu, uu, d2 = (np.asarray(m) for m in sol.matrices)
            for a, s in enumerate(states):
                for b, t in enumerate(states): put(f'{en[s]}(-1), {en[t]}(-1)', xx[:, a*k + b])
                for b, e in enumerate(sn): put(f'{en[s]}(-1), {e}', xu[:, a*q + b])
            for a, e in enumerate(sn):
                for b, f in enumerate(sn): put(f'{e}, {f}', uu[:, a*q + b])
            put('del2', d2[:, 0])
            S = [f'{en[s]}(-1)' for s in sorder]
            order += [f'{a}, {b}' for a in S for b in S] + [f'{a}, {b}' for a in S for b in sn] + [f'{a}, {b}' for a in sn for b in sn] + ['del2']
        L = text.split('\n')
        mon.true('heading', L[0].strip() == {1: 'first', 2: 'second'}[self.order] + ' order policy and transition functions:', lambda: f'{w}: {L[0]!r}')
        body = [l for l in L[1:] if l.strip() != '+']
        if any('+' == l.strip() for l in L[1:]): mon.event('separators')
        cols = body[0].split()
        lim = 10.0**-(sig + (thresh or 0))
        if self.order == 1 and thresh is not None:
            # columns may be hidden when everything in them is below the threshold
            keep = [y for y in en if y in cols]
            if cols != keep: mon.fail('solution columns', f'{w}: columns {cols} of variables {en}'); return
            for y in en:
                if y not in cols:
                    m = max(abs(rows[r][en.index(y)]) for r in order)
                    mon.event('hidden columns')
                    if m > lim*(1 + 1e-9): mon.fail('hidden above the threshold', f'{w}: {y} is hidden, an entry is {m!r}')
            mon.tally(f'columns hidden:{min(2, n - len(cols))}')
        else:
            mon.event('column labels')
            if cols != en: mon.fail('solution columns', f'{w}: columns {cols}, expected {en}'); return
        at = [en.index(y) for y in cols]
        shown = []
        for l in body[1:]:
            lab, nums = tokens(l, len(cols), 'solution')
            mon.event('row labels')
            if lab not in rows: mon.fail('solution rows', f'{w}: unknown row {lab!r}: {l!r}'); continue
            if lab in shown: mon.fail('solution rows', f'{w}: row {lab!r} appears twice'); continue
            shown.append(lab)
            for c, s, j in zip(cols, nums, at): J.number('solution', s, rows[lab][j], f'row {lab}, column {c}')
        for r in order:
            if r in shown: continue
            mon.event('hidden rows')
            m = np.abs(rows[r]).max()
            if r in ('steady', 'del2'): mon.fail('rows that are always shown', f'{w}: row {r} is hidden')
            elif self.order == 1 or m > lim*(1 + 1e-9): mon.fail('hidden above the threshold', f'{w}: row {r} is hidden, an entry is {m!r}')
        mon.true('row order', shown == [r for r in order if r in shown], lambda: f'{w}: rows {shown}, expected order {order}')
        if len(shown) < len(order): mon.tally('rows hidden')
        mon.tally(f'solution summary order {self.order}'); mon.seen('solution', self.order, sig, thresh, shape_key(self.spec), len(order) - len(shown))


# ------------------------------------------------------------------------------ C24

class C24(Check):
    prop = 'C24'
    rule = ('one count per distinct (number of series, arrangement, source of the series); every line of every panel of the figure is read back')
    assumptions = ['a line drawn across a panel at height zero is an axis, not a series']
    sizes = dict(quick=420, thorough=3000)
    caps = dict(quick=200, thorough=700)

    def fixed(self, tier):
        out = []
        j = 0
        for n in list(range(1, 14)) + [16, 17, 20, 25, 30]:
            for lay in ('rect', 'square', 'column', 'row', 'one panel'):
                if n > 13 and lay in ('column', 'row') and n > 20: continue
                out.append(dict(source='data', n=n, layout=lay, seed=1000 + j)); j += 1
        for n, g in [(1, (1, 1)), (1, (2, 3)), (4, (1, 2)), (5, (2, 2)), (5, (2, 3)), (3, (3, 1)), (3, (1, 3)), (7, (2, 2)), (7, (1, 1)), (7, (7, 1)),
                     (9, (2, 2)), (12, (3, 5)), (6, (2, 1)), (6, (1, 4)), (2, (1, 1)), (11, (2, 3))]:
            out.append(dict(source='data', n=n, layout=list(g), seed=2000 + j)); j += 1
        return out

    def gen(self, rng, i, tier):
        r = rng.random()
        source = 'data' if r < .45 else ('simulation' if r < .75 else 'response')
        n = int(rng.integers(1, 15))
        lay = ['rect', 'square', 'column', 'row', 'one panel', 'grid', 'default', 'bad'][int(rng.choice([0, 1, 2, 3, 4, 5, 5, 5, 6, 7]))]
        case = dict(source=source, n=n, layout=lay, seed=int(rng.integers(1 << 31)))
        if lay == 'grid': case['layout'] = [int(rng.integers(1, 5)), int(rng.integers(1, 5))]
        if source != 'data':
            spec = pick_model(rng, nonlinear=rng.random() < .3)
            if spec is None: return None
            case['spec'] = spec; case['n'] = len(spec['endog'])
        return case

    def run(self, case, mon):
        warnings.simplefilter('ignore')
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        try:
            self.judge(case, mon, plt)
        finally:
            plt.close('all')

    def judge(self, case, mon, plt):
        rng = np.random.default_rng(case['seed'])
        from pynare.plotting.base import PathPlot
        T = int(rng.choice([3, 4, 7, 20]))
        if case['source'] == 'data':
            n = case['n']
            data = rng.normal(size=(T, n))*rng.choice([1, 1e-8, 1e6], size=n)
            data[:, rng.random(n) < .15] = 0.0
            if n > 1 and rng.random() < .3: data[:, 0] = data[:, 1]
            if rng.random() < .3: data = np.abs(data) + .1
            labels = gen.names(rng, gen.NAMES, n, set())
            form = int(rng.integers(4))
            lab = labels if form == 0 else (np.array(labels) if form == 1 else tuple(labels))
            if form == 3: lab = None; labels = ['']*n
            artist = PathPlot(data, lab) if rng.random() < .5 else PathPlot(data, labels=lab)
            draw = artist.plot
        else:
            spec = case['spec']
            md = quiet_build(spec); quiet_solve(md, int(rng.integers(1, 3)))
            try:
                if case['source'] == 'simulation':
                    res = md.simulate(periods=T)
                    data = np.array(res.paths)
                else:
                    s = md.stoch.names
                    res = md.impulse_response(str(s[int(rng.integers(len(s)))]), periods=T)
                    data = np.array(res.impulse)
            except Hang: raise
            except Exception as err:
                raise Skip(f'nothing to plot: {type(err).__name__}')
            labels = [str(x) for x in spec['endog']]
            draw = res.plot
        n = len(labels)
        before = data.copy()
        lay = case['layout']
        kw = {}
        single = lay == 'one panel'
        if single: kw['subplots'] = False
        elif lay == 'default': pass
        elif lay == 'bad':
            bad = [('grid',), ('Rect',), ('cols',), ((1, 2, 3),), ((2,),), (None,), ('',), ('rectangle',), ('square ',), (7,)][int(rng.integers(10))][0]
            mon.raises('unrecognised arrangement', lambda: draw(layout=bad), what=f'layout={bad!r} with {n} series')
            mon.seen('bad', repr(bad)); mon.tally('refusals')
            return
        else: kw['layout'] = tuple(lay) if isinstance(lay, list) and rng.random() < .8 else lay
        if rng.random() < .2: kw['figsize'] = (8, 6)
        colour = rng.random() < .15
        if colour: kw['color'] = 'red'
        if rng.random() < .15: kw['linestyle'] = '--'
        if rng.random() < .1: kw['sharex'] = True
        if 'layout' in kw and rng.random() < .2:
            got = draw(True, kw['layout'], **{k: v for k, v in kw.items() if k != 'layout'})
        else: got = draw(**kw)
        what = f'{n} series {labels}, {kw}'
        fig = plt.gcf()
        axes = list(np.ravel(np.array(got, dtype=object)))
        mon.true('panels returned', set(map(id, axes)) == set(map(id, fig.axes)), lambda: f'{what}: {len(axes)} panels returned, {len(fig.axes)} in the figure')
        drawn = []
        for i, ax in enumerate(fig.axes):
            lines = [l for l in ax.lines if not self.axis(l, T)]
            leg = ax.get_legend()
            names = [t.get_text() for t in leg.get_texts()] if leg is not None else []
            mon.event('panels')
            if lines and leg is None:
                mon.fail('no legend', f'{what}: panel {i} draws {len(lines)} series without a legend'); names = [None]*len(lines)
            if len(names) != len(lines):
                mon.fail('legend', f'{what}: panel {i} draws {len(lines)} series and names {names}')
                continue
            handles = list(getattr(leg, 'legend_handles', []) or []) if leg is not None else []
            for j, (l, nm) in enumerate(zip(lines, names)):
                y = np.asarray(l.get_ydata(), dtype=float)
                x = np.asarray(l.get_xdata(), dtype=float)
                if len(handles) == len(lines) and not colour:
                    mon.event('legend handles')
                    if handles[j].get_color() != l.get_color():
                        # the legend pairs the name with another line
                        k = next((k for k, h in enumerate(lines) if h.get_color() == handles[j].get_color()), None)
                        if k is not None: y = np.asarray(lines[k].get_ydata(), dtype=float)
                drawn.append((nm, y, x, i))
        # each series exactly once, under its own name
        if case['source'] == 'data' and not any(labels):
            self.match_unnamed(mon, drawn, before, what)
        else:
            names = [d[0] for d in drawn]
            mon.true('each exactly once', sorted(map(str, names)) == sorted(labels), lambda: f'{what}: the panels name {names}')
            for nm, y, x, i in drawn:
                if nm not in labels: continue
                w = before[:, labels.index(nm)]
                mon.true('series', y.shape == w.shape and np.array_equal(y, w, equal_nan=True), lambda: f'{what}: under {nm} in panel {i} is {short(y)}, the series is {short(w)}')
                mon.true('periods', x.shape == w.shape and (np.diff(x) > 0).all() and np.allclose(np.diff(x), x[1] - x[0]), lambda: f'{what}: periods of {nm}: {short(x)}')
        # arrangement
        r, c = fig.axes[0].get_subplotspec().get_gridspec().get_geometry()
        if single: ok = len(fig.axes) == 1
        elif lay in ('rect', 'default'): ok = r*c == n == len(fig.axes)
        elif lay == 'square': ok = r == c == math.isqrt(n - 1) + 1
        elif lay == 'column': ok = (r, c) == (n, 1)
        elif lay == 'row': ok = (r, c) == (1, n)
        else: ok = (r, c) == tuple(lay)
        mon.true('arrangement', ok, lambda: f'{what}: panels arranged {r} by {c}')
        if not single:
            # one series to a panel where there are enough panels
            used = [d[3] for d in drawn]
            if len(fig.axes) >= n: mon.true('own panel', len(set(used)) == n, lambda: f'{what}: panels used {used}')
        mon.true('data left alone', np.array_equal(data, before, equal_nan=True), 'the data changed')
        mon.tally('source:' + case['source'], f'layout:{lay if isinstance(lay, str) else "grid"}', f'series:{n}')
        if isinstance(lay, list) and lay[0]*lay[1] < n: mon.tally('more series than panels')
        mon.seen(n, str(lay), case['source'], T)

    def axis(self, l, T):
        y, x = np.asarray(l.get_ydata(), dtype=float), np.asarray(l.get_xdata(), dtype=float)
        return len(y) == 2 and T > 2 and not y.any()

    def match_unnamed(self, mon, drawn, data, what):
        left = list(range(data.shape[1]))
        for nm, y, x, i in drawn:
            j = next((j for j in left if y.shape == data[:, j].shape and np.array_equal(y, data[:, j])), None)
            if not mon.true('each exactly once', j is not None, lambda: f'{what}: {short(y)} in panel {i} is none of the remaining series'): continue
            left.remove(j)
        mon.true('each exactly once', not left, lambda: f'{what}: series {left} not drawn')


CHECKS = [C23, C24]
