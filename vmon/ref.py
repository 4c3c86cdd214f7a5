"""
An independent reader of the model language, used as oracle for texts nobody wrote on purpose.

read(text) gives a specification of the model the text states, or raises
    Bad      the text is outside of the language
    Unsure   the language leaves open what the text means (such texts are not judged)
"""
import math
from vmon import ex

KEYWORDS = set('''var varexo varexo_det parameters predetermined_variables trend_var log_trend_var change_type end model initval endval
histval resid initval_file histval_file shocks periods values corr stderr dsample steady homotopy_setup steady_state_model check
model_diagnostics model_info print_bytecode_dynamic_model print_bytecode_static_model perfect_foresight_setup perfect_foresight_solver
simul stoch_simul extended_path varobs observation_trends estimated_params estimated_params_init estimated_params_bounds estimation
unit_root_vars bvar_density model_comparison shock_decomposition shock_groups realtime_shock_decomposition plot_shock_decomposition
calib_smoother forecast conditional_forecast conditional_forecast_paths plot_conditional_forecast init_plan basic_plan flip_plan
det_cond_forecast smoother2histval osr osr_params optim_weights osr_params_bounds ramsey_model ramsey_constraints ramsey_policy
discretionary_policy planner_objective dynare_sensitivity irf_calibration moment_calibration momen_calibration identification
markov_switching svar sbvar svar_identification ms_estimation ms_simulation ms_comparison ms_compute_mdd ms_compute_probabilities
ms_irf ms_forecast ms_variance_decomposition'''.split())
# words that are reserved in one reading of the documentation and not in another
GREY = {'observation_trends', 'optim_weights', 'moment_calibration', 'momen_calibration', 'ms_comparison', 'predetermined_variables',
        'trend_var', 'log_trend_var', 'periods', 'values'}
FUNCS = set(ex.FUNCS1) | {'max', 'min', 'normcdf', 'normpdf'}
UNSUPPORTED = {'max', 'min', 'normcdf', 'normpdf'}
SPACE = ' \t\n\r\f\v'


class Bad(Exception): pass
class Unsure(Exception): pass


def tokens(text, dynare=True, exp='standard'):
    """list of (kind, text); kinds: id fn kw num str, and the symbols themselves"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in SPACE: i += 1; continue
        if dynare and (c == '%' or text.startswith('//', i)):
            j = text.find('\n', i)
            i = n if j < 0 else j
            continue
        if dynare and text.startswith('/*', i):
            j = text.find('*/', i + 2)
            if j < 0: raise Bad('unterminated comment')
            i = j + 2
            continue
        if ord(c) > 126 or ord(c) < 32: raise Unsure('unusual character')
        if c.isalpha() or (c == '_' and not dynare):
            j = i
            while j < n and (text[j].isalnum() or text[j] == '_'):
                if ord(text[j]) > 126: raise Unsure('unusual character')
                j += 1
            w = text[i:j]
            i = j
            if w in FUNCS: out.append(('fn', w))
            elif dynare and w in KEYWORDS:
                if w in GREY: raise Unsure('keyword')
                out.append(('kw', w))
            else: out.append(('id', w))
            continue
        if c.isdigit() or c == '.':
            j = i
            while j < n and (text[j].isdigit() or text[j] == '.'): j += 1
            w = text[i:j]
            if w.count('.') > 1 or w == '.': raise Bad('number')
            out.append(('num', w)); i = j
            continue
        if c in '\'"':
            j = text.find(c, i + 1)
            if j < 0: raise Bad('unterminated string')
            out.append(('str', text[i+1:j])); i = j + 1
            continue
        for s in ('<=', '>=', '==') + (('**',) if exp == 'python' else ()):
            if text.startswith(s, i): break
        else: s = c
        i += len(s)
        if s == '^' and exp == 'python': raise Bad('symbol')
        if s not in ('<=', '>=', '==', '**', '<', '>', '=', '+', '-', '*', '/', '^', '(', ')', '[', ']', '{', '}', ',', ';', ':', '#', '&', '|', '@',
                     '!', '~', '%', '\\'): raise Bad('symbol')
        out.append(('^' if s == '**' else s, s))
    out.append(('eof', ''))
    return out


class _P(object):
    """recursive descent over a token list"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    @property
    def k(self): return self.t[self.i][0]
    @property
    def w(self): return self.t[self.i][1]

    def iskw(self, *ws): return self.k == 'kw' and self.w in ws

    def eat(self, kind, word=None):
        if self.k != kind or (word is not None and self.w != word): raise Bad(f'{self.k} {self.w!r} instead of {kind} {word or ""}')
        w = self.w
        self.i += 1
        return w

    # dated: whether x(+1) may appear
    def atom(self, dated):
        if self.k == 'id':
            w = self.eat('id')
            if dated and self.k == '(':
                self.eat('(')
                if self.k not in ('+', '-'): raise Bad('shift')
                sign = 1 if self.k == '+' else -1
                self.i += 1
                m = float(self.eat('num'))
                if m % 1: raise Bad('fractional shift')
                self.eat(')')
                return ['v', w, sign*int(m)]
            return ['p', w]
        if self.k == 'num': return ['n', self.eat('num')]
        if self.k == '(':
            self.eat('('); x = self.expr(dated); self.eat(')')
            return x
        if self.k in ('+', '-'):
            s = self.k; self.i += 1
            return ['pos' if s == '+' else 'neg', self.power(dated)]
        if self.k == 'fn':
            f = self.eat('fn')
            self.eat('('); x = self.expr(dated); self.eat(')')
            return ['f', f, x]
        raise Bad(f'no operand: {self.w!r}')

    def power(self, dated):
        a = self.atom(dated)
        if self.k == '^':
            self.i += 1
            return ['^', a, self.power(dated)]
        return a

    def term(self, dated):
        a = self.power(dated)
        while self.k in ('*', '/'):
            s = self.k; self.i += 1
            a = [s, a, self.power(dated)]
        return a

    def expr(self, dated):
        a = self.term(dated)
        while self.k in ('+', '-'):
            s = self.k; self.i += 1
            a = [s, a, self.term(dated)]
        return a

    def arglist(self):
        if self.k != '(': return
        self.eat('(')
        while True:
            self.eat('id')
            if self.k == '=':
                self.eat('=')
                if self.k == 'str': self.eat('str')
                elif self.k == 'id': self.eat('id')
                else: self.expr(False)
            if self.k != ',': break
            self.eat(',')
        self.eat(')')


def expression(text, exp='standard', comparison=True):
    """read an expression on its own"""
    if not text: raise Unsure('empty')
    p = _P(tokens(text, dynare=False, exp=exp))
    a = p.expr(False)
    if comparison and p.k in ('<', '<=', '>', '>=', '=='):
        s = p.k; p.i += 1
        a = [s, a, p.expr(False)]
    if p.k != 'eof': raise Bad('trailing text')
    if any(x[0] == 'f' and x[1] in UNSUPPORTED for x in ex.walk(a)): raise Bad('unsupported function')
    return a


def names_in(x):
    return [c[1] for c in ex.walk(x) if c[0] in ('p', 'v', 'e')]


def read(text):
    """specification of the model a file states"""
    p = _P(tokens(text))
    unsure = []
    decl, assigns = [], []
    while not p.iskw('model'):
        if p.iskw('var', 'varexo', 'varexo_det', 'parameters'):
            kind = p.eat('kw')
            first = True
            while p.k in (',', 'id'):
                if p.k == ',':
                    if first: unsure.append('leading comma')
                    p.eat(',')
                decl.append((kind, p.eat('id')))
                first = False
            if first: unsure.append('empty declaration')
            p.eat(';')
        elif p.k == 'id':
            w = p.eat('id'); p.eat('=')
            assigns.append((w, p.expr(False)))
            p.eat(';')
        else: raise Bad(f'{p.w!r} before the model')
    p.eat('kw', 'model')
    p.arglist(); p.eat(';')
    eqs, local, order = [], [], []
    while not p.iskw('end'):
        if p.k == '#':
            p.eat('#'); w = p.eat('id'); p.eat('='); x = p.expr(True)
            local.append([w, x]); order.append(('local', w, x))
        else:
            if p.k == '[':
                p.eat('[')
                while True:
                    p.eat('id')
                    if p.k == '=': p.eat('='); p.eat('str')
                    if p.k != ',': break
                    p.eat(',')
                p.eat(']')
            x = p.expr(True)
            if p.k == '=':
                p.eat('=')
                x = ['=', x, p.expr(True)]
            eqs.append(x); order.append(('eq', None, x))
        p.eat(';')
    p.eat('kw', 'end'); p.eat(';')
    bounds, shocks = {}, None
    while p.k != 'eof':
        if p.iskw('initval', 'endval', 'histval'):
            kind = p.eat('kw'); p.arglist(); p.eat(';')
            L = []
            while not p.iskw('end'):
                w = p.eat('id'); p.eat('='); L.append((w, p.expr(False))); p.eat(';')
            p.eat('kw', 'end'); p.eat(';')
            if kind in bounds: unsure.append('repeated block')
            bounds[kind] = L
        elif p.iskw('shocks'):
            p.eat('kw'); p.arglist(); p.eat(';')
            L = []
            while p.iskw('corr', 'var'):
                if p.eat('kw') == 'corr':
                    a = p.eat('id'); p.eat(','); b = p.eat('id'); p.eat('='); L.append(['corr', a, b, p.expr(False)])
                else:
                    a = p.eat('id')
                    if p.k == ',': p.eat(','); b = p.eat('id'); p.eat('='); L.append(['cov', a, b, p.expr(False)])
                    elif p.k == '=': p.eat('='); L.append(['var', a, p.expr(False)])
                    else:
                        p.eat(';'); p.eat('kw', 'stderr'); L.append(['std', a, p.expr(False)])
                p.eat(';')
            p.eat('kw', 'end'); p.eat(';')
            if shocks is not None: unsure.append('repeated block')
            shocks = L
        else: raise Bad(f'{p.w!r} after the model')

    # ------------------------------------------------------------------ meaning
    if not any(k == 'var' for k, _ in decl): unsure.append('no variables')
    kinds = {}
    for kind, w in decl:
        if w in kinds: raise Bad(f'{w} declared twice')
        kinds[w] = kind
    endog = [w for k, w in decl if k == 'var']
    stoch = [w for k, w in decl if k == 'varexo']
    params = [w for k, w in decl if k == 'parameters']
    if any(k == 'varexo_det' for k, _ in decl): unsure.append('deterministic')

    for x in [a[1] for a in assigns] + [o[2] for o in order] + [a[1] for L in bounds.values() for a in L] + [s[-1] for s in shocks or []]:
        if any(c[0] == 'f' and c[1] in UNSUPPORTED for c in ex.walk(x)): raise Bad('unsupported function')

    vals, helpers, assigned, defs, used_helper = {}, set(), set(), [], False
    for w, x in assigns:
        if w in kinds and kinds[w] != 'parameters': raise Bad(f'value assigned to {w}')
        for q in names_in(x):
            if q not in kinds and q not in helpers and q != w: raise Bad(f'{q} undeclared')
            if q in kinds and kinds[q] != 'parameters':
                # a bare reference kept by a name that never reaches the model is not judged
                if x[0] == 'p' and w not in kinds: unsure.append('reference to a variable')
                else: raise Bad(f'{q} is not a parameter')
            if q not in vals:
                if x[0] == 'p': unsure.append('used before assignment')
                else: raise Bad(f'{q} used before it has a value')
        if w in assigned: unsure.append('assigned twice')
        assigned.add(w)
        if w not in kinds: helpers.add(w)
        try: vals[w] = ex.value(x, vals)
        except (ex.Undefined, OverflowError): unsure.append('value'); vals[w] = math.nan
        except KeyError: vals[w] = math.nan
        if not math.isfinite(vals[w]) or abs(vals[w]) > 1e12: unsure.append('value')
    for w in params:
        if w not in assigned: raise Bad(f'parameter {w} has no value')
    pvals = {w: vals[w] for w in params}

    seen, lvals = set(), {}
    for what, w, x in order:
        for c in ex.walk(x):
            if c[0] not in ('p', 'v'): continue
            q = c[1]
            if q not in kinds and q not in seen: raise Bad(f'{q} undeclared in the model')
            if c[0] == 'v':
                if kinds.get(q) == 'parameters' or q in seen: raise Bad(f'shifted {q}')
                if kinds.get(q) in ('varexo', 'varexo_det') and c[2]: raise Bad(f'shifted {q}')
                if abs(c[2]) > 1: raise Bad('shift')
                if what == 'local': raise Bad('variable in a local definition')
            elif what == 'local' and kinds.get(q) not in ('parameters', None): raise Bad('variable in a local definition')
        if what == 'local':
            if w in kinds or w in seen or w in helpers: raise Bad(f'{w} declared twice')
            seen.add(w)
            try: lvals[w] = ex.value(x, {**pvals, **lvals})
            except (ex.Undefined, OverflowError): unsure.append('value'); lvals[w] = math.nan

    def fix(x):
        if x[0] in ('p', 'v'):
            k = kinds.get(x[1])
            if k == 'var': return ['v', x[1], x[2] if x[0] == 'v' else 0]
            if k in ('varexo', 'varexo_det'): return ['e', x[1]]
            return ['p', x[1]]
        return [x[0]] + [fix(c) if isinstance(c, list) else c for c in x[1:]]
    eqs = [fix(x) for x in eqs]
    appear = {c[1] for q in eqs for c in ex.walk(q) if c[0] == 'v'}
    for w in endog:
        if w not in appear: raise Bad(f'{w} never appears')
    if len(eqs) != len(endog): raise Bad('number of equations')

    bvals = {}
    for kind, L in bounds.items():
        d = bvals[kind] = {}
        for w, x in L:
            if kinds.get(w) != 'var': raise Bad(f'{kind} of {w}')
            for q in names_in(x):
                if q not in kinds and q not in helpers: raise Bad(f'{q} undeclared')
                if q not in vals and q not in d: raise Bad(f'{q} has no value')
            try: v = ex.value(x, {**vals, **d})
            except (ex.Undefined, OverflowError): unsure.append('value'); v = math.nan
            if w in d: unsure.append('assigned twice')
            d[w] = v
    S = [[float(i == j) for j in range(len(stoch))] for i in range(len(stoch))]
    ix = {w: i for i, w in enumerate(stoch)}
    pairs, pair_names, touched = set(), [], set()
    svals = []
    for s in shocks or []:
        for w in s[1:-1]:
            if kinds.get(w) == 'varexo_det': unsure.append('deterministic')
            elif kinds.get(w) != 'varexo': raise Bad(f'{w} is not a shock')
        for q in names_in(s[-1]):
            if q not in kinds and q not in helpers: raise Bad(f'{q} undeclared')
            if q not in vals: raise Bad(f'{q} has no value')
        try: v = ex.value(s[-1], vals)
        except (ex.Undefined, OverflowError): unsure.append('value'); v = math.nan
        svals.append(v)
    if 'deterministic' not in unsure:
        for s, v in zip(shocks or [], svals):
            if s[0] in ('var', 'std'):
                if s[1] in touched: unsure.append('assigned twice')
                touched.add(s[1])
                i = ix[s[1]]
                S[i][i] = v if s[0] == 'var' else v*v
                if s[0] == 'var' and v < 0: unsure.append('negative variance')
        for s, v in zip(shocks or [], svals):
            if s[0] in ('corr', 'cov'):
                if s[1] == s[2] or s[1] in pair_names or s[2] in pair_names: unsure.append('several partners')
                pair_names += s[1:3]
                i, j = ix[s[1]], ix[s[2]]
                if s[0] == 'corr' and (abs(v) > 1): unsure.append('correlation')
                S[i][j] = S[j][i] = v if s[0] == 'cov' else v*math.sqrt(max(0, S[i][i]*S[j][j]))
    if unsure: raise Unsure(', '.join(sorted(set(unsure))))
    return dict(endog=endog, stoch=stoch, params=params, pvals=pvals, lvals=lvals, eqs=eqs, bounds=bvals, sigma=S, vals={**pvals, **lvals})
