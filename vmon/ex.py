"""
An expression language of our own, independent of the parser under test.

An expression is a JSON-friendly list:
    ['n', '0.5']                number, kept as the text that is printed
    ['v', name, shift]          endogenous variable at t+shift (shift in -1, 0, 1; '0' is the plain spelling)
    ['e', name]                 shock
    ['p', name]                 parameter (or any other plain name)
    ['neg', a] ['pos', a]       unary signs
    ['+', a, b] ['-', a, b] ['*', a, b] ['/', a, b] ['^', a, b]
    ['f', fname, a]             function call
An equation is ['=', lhs, rhs], or a bare expression (which is set to zero).

Three things are done with it, none of which uses pynare: printing it as text in any of the
spellings the language allows, evaluating it, and differentiating it twice by forward-mode jets.
"""
import math
import numpy as np
from math import erf as _erf

FUNCS1 = ('exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf')


def n(x):
    """number literal, exactly the value of its text"""
    if isinstance(x, str):
        return ['n', x]
    if x < 0:
        return ['neg', n(-x)]
    s = repr(float(x))
    if 'e' in s or 'inf' in s or 'nan' in s:
        s = f'{x:.17f}'
    return ['n', s]


def v(name, shift=0): return ['v', name, shift]
def e(name): return ['e', name]
def p(name): return ['p', name]
def add(a, b): return ['+', a, b]
def sub(a, b): return ['-', a, b]
def mul(a, b): return ['*', a, b]
def div(a, b): return ['/', a, b]
def pw(a, b): return ['^', a, b]
def neg(a): return ['neg', a]
def f(fn, a): return ['f', fn, a]


def summed(terms):
    out = None
    for t in terms:
        out = t if out is None else ['+', out, t]
    return n(0.0) if out is None else out


# ------------------------------------------------------------------ structure

def walk(x):
    yield x
    for c in x[1:]:
        if isinstance(c, list):
            yield from walk(c)


def rename(x, m):
    """rename names consistently"""
    if x[0] in ('v', 'e', 'p'):
        return [x[0], m.get(x[1], x[1])] + x[2:]
    return [x[0]] + [rename(c, m) if isinstance(c, list) else c for c in x[1:]]


def subst(x, m):
    """replace parameter-like names by expressions"""
    if x[0] == 'p' and x[1] in m:
        return m[x[1]]
    return [x[0]] + [subst(c, m) if isinstance(c, list) else c for c in x[1:]]


def dated(x):
    """set of (name, shift) of the endogenous variables appearing"""
    return {(c[1], c[2]) for c in walk(x) if c[0] == 'v'}


def residual(eq):
    return ['-', eq[1], eq[2]] if eq[0] == '=' else eq


# ------------------------------------------------------------------- printing

# priority of the outermost operator; larger binds tighter
_PRI = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3, 'pos': 3, '^': 4}


class Style(object):
    """how to write things down; the default is the plain spelling"""

    def __init__(self, rng=None, power='^', paren=0.0, space=0.0, plus=True, ws=(' ',)):
        self.rng, self.power, self.paren, self.space, self.ws = rng, power, paren, space, ws

    def sp(self, default=''):
        if self.rng is None or self.space == 0:
            return default
        if self.rng.random() < self.space:
            k = self.rng.integers(1, 3)
            return ''.join(self.ws[self.rng.integers(len(self.ws))] for _ in range(k))
        return default

    def extra(self):
        return self.rng is not None and self.paren and self.rng.random() < self.paren


def show(x, st=None, dates=True):
    st = st or Style()
    return _show(x, st, 0)


def _wrap(s, st):
    return '(' + st.sp() + s + st.sp() + ')'


def _show(x, st, need):
    """text of `x` where the context needs an expression of priority at least `need`"""
    k = x[0]
    if k == '=':
        return _show(x[1], st, 0) + st.sp(' ') + '=' + st.sp(' ') + _show(x[2], st, 0)
    if k == 'n':
        s, pri = x[1], 9
    elif k in ('p', 'e'):
        s, pri = x[1], 9
    elif k == 'v':
        s, pri = x[1] + ('' if x[2] == 0 else f'({x[2]:+d})' if x[2] != '0' else '(+0)'), 9
    elif k == 'f':
        s, pri = x[1] + '(' + st.sp() + _show(x[2], st, 0) + st.sp() + ')', 9
    elif k in ('neg', 'pos'):
        # a sign stands before a power (or another sign): -x^2 is -(x^2)
        s, pri = ('-' if k == 'neg' else '+') + st.sp() + _show(x[1], st, 3), 3
    elif k in ('+', '-'):
        s = _show(x[1], st, 1) + st.sp(' ') + k + st.sp(' ') + _show(x[2], st, 2)
        pri = 1
    elif k in ('*', '/'):
        s = _show(x[1], st, 2) + st.sp() + k + st.sp() + _show(x[2], st, 3)
        pri = 2
    elif k == '^':
        # right associative; a sign may stand in the exponent
        s = _show(x[1], st, 5) + st.sp() + st.power + st.sp() + _show(x[2], st, 3)
        pri = 4
    elif k in ('<', '<=', '>', '>=', '=='):
        s = _show(x[1], st, 1) + st.sp(' ') + k + st.sp(' ') + _show(x[2], st, 1)
        pri = 0
    else:
        raise ValueError(k)
    if pri < need or (pri != 0 and st.extra()):
        s = _wrap(s, st)
    return s


# ----------------------------------------------------------------- evaluation

class Undefined(Exception):
    """the expression has no finite real value here"""


def _f1(fn, a):
    if fn == 'exp':
        if a > 600: raise Undefined
        return math.exp(a)
    if fn in ('log', 'ln', 'log10'):
        if a <= 0: raise Undefined
        return math.log10(a) if fn == 'log10' else math.log(a)
    if fn == 'sqrt':
        if a < 0: raise Undefined
        return math.sqrt(a)
    if fn == 'abs': return abs(a)
    if fn == 'sign': return (a > 0) - (a < 0) + 0.0
    if fn == 'sin': return math.sin(a)
    if fn == 'cos': return math.cos(a)
    if fn == 'tan': return math.tan(a)
    if fn in ('asin', 'acos'):
        if abs(a) > 1: raise Undefined
        return getattr(math, fn)(a)
    if fn == 'atan': return math.atan(a)
    if fn == 'erf': return _erf(a)
    raise ValueError(fn)


def value(x, env):
    """`env` maps (name, shift) of variables and plain names of everything else to numbers"""
    k = x[0]
    if k == 'n': return float(x[1])
    if k == 'v': return env[(x[1], int(x[2]))]
    if k in ('e', 'p'): return env[x[1]]
    if k == 'neg': return -value(x[1], env)
    if k == 'pos': return value(x[1], env)
    if k == 'f': return _f1(x[1], value(x[2], env))
    a, b = value(x[1], env), value(x[2], env)
    if k in ('-', '='): return a - b
    if k == '+': return a + b
    if k == '*': return a * b
    if k == '/':
        if b == 0: raise Undefined
        return a / b
    if k == '^':
        try:
            r = a ** b
        except (ZeroDivisionError, OverflowError):
            raise Undefined
        if isinstance(r, complex): raise Undefined
        return r
    if k == '<': return a < b
    if k == '<=': return a <= b
    if k == '>': return a > b
    if k == '>=': return a >= b
    if k == '==': return a == b
    raise ValueError(k)


# ------------------------------------------------------------ second-order jets

class Jet(object):
    """value, gradient and Hessian with respect to a fixed list of unknowns"""
    __slots__ = ('x', 'g', 'h')

    def __init__(self, x, g, h):
        self.x, self.g, self.h = x, g, h

    @staticmethod
    def const(x, m):
        return Jet(float(x), np.zeros(m), np.zeros((m, m)))

    @staticmethod
    def var(x, i, m):
        g = np.zeros(m); g[i] = 1.0
        return Jet(float(x), g, np.zeros((m, m)))

    def comp(self, f0, f1, f2):
        """f(self) for a scalar function with value f0 and derivatives f1, f2 here"""
        return Jet(f0, f1*self.g, f1*self.h + f2*np.outer(self.g, self.g))

    def __add__(self, o): return Jet(self.x+o.x, self.g+o.g, self.h+o.h)
    def __sub__(self, o): return Jet(self.x-o.x, self.g-o.g, self.h-o.h)
    def __neg__(self): return Jet(-self.x, -self.g, -self.h)

    def __mul__(self, o):
        c = np.outer(self.g, o.g)
        return Jet(self.x*o.x, self.x*o.g + o.x*self.g, self.x*o.h + o.x*self.h + c + c.T)

    def inv(self):
        if self.x == 0: raise Undefined
        return self.comp(1/self.x, -1/self.x**2, 2/self.x**3)


def jet(x, env, m):
    """`env` maps the same keys as in `value` to floats or Jets"""
    def get(key):
        r = env[key]
        return r if isinstance(r, Jet) else Jet.const(r, m)
    k = x[0]
    if k == 'n': return Jet.const(float(x[1]), m)
    if k == 'v': return get((x[1], int(x[2])))
    if k in ('e', 'p'): return get(x[1])
    if k == 'neg': return -jet(x[1], env, m)
    if k == 'pos': return jet(x[1], env, m)
    if k == 'f':
        a = jet(x[2], env, m); fn, t = x[1], a.x
        f0 = _f1(fn, t)
        if fn == 'exp': return a.comp(f0, f0, f0)
        if fn in ('log', 'ln'): return a.comp(f0, 1/t, -1/t**2)
        if fn == 'log10':
            c = 1/math.log(10); return a.comp(f0, c/t, -c/t**2)
        if fn == 'sqrt':
            if t == 0: raise Undefined
            return a.comp(f0, .5/f0, -.25/f0**3)
        if fn == 'abs':
            if t == 0: raise Undefined
            return a.comp(f0, math.copysign(1, t), 0.0)
        if fn == 'sign': return a.comp(f0, 0.0, 0.0)
        if fn == 'sin': return a.comp(f0, math.cos(t), -f0)
        if fn == 'cos': return a.comp(f0, -math.sin(t), -f0)
        if fn == 'tan':
            s = 1 + f0*f0; return a.comp(f0, s, 2*f0*s)
        if fn == 'asin':
            q = 1 - t*t; return a.comp(f0, q**-.5, t*q**-1.5)
        if fn == 'acos':
            q = 1 - t*t; return a.comp(f0, -q**-.5, -t*q**-1.5)
        if fn == 'atan':
            q = 1 + t*t; return a.comp(f0, 1/q, -2*t/q**2)
        if fn == 'erf':
            d = 2/math.sqrt(math.pi)*math.exp(-t*t); return a.comp(f0, d, -2*t*d)
        raise ValueError(fn)
    a, b = jet(x[1], env, m), jet(x[2], env, m)
    if k in ('-', '='): return a - b
    if k == '+': return a + b
    if k == '*': return a * b
    if k == '/': return a * b.inv()
    if k == '^':
        if not b.g.any() and not b.h.any():
            c = b.x
            try:
                f0, f1, f2 = a.x**c, c*a.x**(c-1) if c else 0.0, c*(c-1)*a.x**(c-2) if c*(c-1) else 0.0
            except (ZeroDivisionError, OverflowError):
                raise Undefined
            if any(isinstance(t, complex) for t in (f0, f1, f2)): raise Undefined
            return a.comp(f0, f1, f2)
        if a.x <= 0: raise Undefined
        la = a.comp(math.log(a.x), 1/a.x, -1/a.x**2)
        t = b * la
        return t.comp(math.exp(t.x), math.exp(t.x), math.exp(t.x))
    raise ValueError(k)
