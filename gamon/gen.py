"""Generators: algebras, multivectors, scalars, programs."""
import random

from sympy import (Function, Matrix, Rational, S, Symbol, cos, exp, sin, sqrt, symbols, sympify, cosh, sinh, log)

NAMES = ['x', 'y', 'z', 'w', 'v', 'u']


def sym_locals(names=()):
    d = {'sin': sin, 'cos': cos, 'exp': exp, 'sqrt': sqrt, 'cosh': cosh, 'sinh': sinh, 'log': log}
    for s in names:
        d[s] = Symbol(s, real=True)
    return d


ALLSYMS = ['x', 'y', 'z', 'w', 'v', 'u', 'a', 'b', 'c', 'd', 'r', 'th', 'ph', 'p', 'q', 's', 't', 'k', 'm', 'l']


def parse(s):
    """Parse a coefficient string; every symbol is a plain real symbol."""
    return sympify(s, locals=sym_locals(ALLSYMS))


def rat(rng, lo=-3, hi=3, dens=(1, 1, 2, 3)):
    n = rng.randint(lo, hi)
    return '%d/%d' % (n, rng.choice(dens)) if n else '0'


def nzrat(rng, lo=-3, hi=3, dens=(1, 1, 2, 3)):
    while True:
        s = rat(rng, lo, hi, dens)
        if s != '0':
            return s


def basis_string(rng, n, coords=True):
    if n == 0:
        return ''
    k = rng.randrange(5)
    if k == 0:
        return 'e*' + '|'.join(str(i + 1) for i in range(n)) if n > 1 else 'e_1,'
    if k == 1:
        return ' '.join('e_%d' % (i + 1) for i in range(n)) if n > 1 else 'e_1,'
    if k == 2:
        return ' '.join('abcdfghk'[i] for i in range(n)) if n > 1 else 'a,'
    if k == 3:
        return 'gamma*' + '|'.join('tzxywvus'[i] for i in range(n)) if n > 1 else 'f_0,'
    return ','.join('e_%s' % 'zxywvust'[i] for i in range(n)) if n > 1 else 'e_x,'


def algebra(rng, kinds=('euclid', 'ortho', 'degen', 'nonortho', 'nonsing', 'symortho', 'symnon', 'default'), nmax=4, nmin=0,
            coords=None, big=0, gsym=0):
    """JSON description of an algebra.  With probability ``big`` it has one to three dimensions more than usual."""
    kind = rng.choice(list(kinds))
    large = big and rng.random() < big
    lim = {'nonortho': min(nmax, 4), 'nonsing': min(nmax, 4), 'symnon': min(nmax, 3), 'default': min(nmax, 3),
           'null': min(nmax, 4)}.get(kind, nmax)
    lo = nmin
    if kind in ('nonortho', 'nonsing', 'symnon', 'default', 'null'):
        lo = max(lo, 2)
    weights = [1 if n <= 1 else (3 if n <= 3 else 2) for n in range(lo, lim + 1)]
    n = rng.choices(range(lo, lim + 1), weights)[0]
    if large:
        n = {'nonortho': 5, 'nonsing': 5, 'null': 5, 'symnon': 4, 'default': 4}.get(kind) or rng.choice([6, 6, 7])
    a = {'kind': kind, 'n': n, 'basis': basis_string(rng, n)}
    if kind == 'euclid':
        a['g'] = ['1'] * n
    elif kind == 'ortho':
        a['g'] = [rng.choice(['1', '-1', '-1', '2', '-3', '1/2']) for _ in range(n)]
    elif kind == 'degen':
        a['g'] = [rng.choice(['1', '-1', '0', '2']) for _ in range(n)]
        if n:
            a['g'][rng.randrange(n)] = '0'
    elif kind == 'symortho':
        a['g'] = [rng.choice(['1', 'p', 'q', '-s', 'p*q', '-1']) for _ in range(n)]
    elif kind in ('nonortho', 'nonsing'):
        g = [['0'] * n for _ in range(n)]
        while True:
            for i in range(n):
                for j in range(i, n):
                    g[i][j] = g[j][i] = rat(rng, -2, 2, (1, 1, 2))
            if all(g[i][j] == '0' for i in range(n) for j in range(i)):
                continue
            if kind == 'nonsing' and Matrix(n, n, lambda i, j: Rational(g[i][j])).det() == 0:
                continue
            break
        a['g'] = g
    elif kind == 'null':
        # conformal-like: two null vectors with product -1, rest orthonormal
        g = [['1' if i == j else '0' for j in range(n)] for i in range(n)]
        i, j = rng.sample(range(n), 2)
        g[i][i] = g[j][j] = '0'
        g[i][j] = g[j][i] = rng.choice(['-1', '1', '-2'])
        a['g'] = g
    elif kind == 'symnon':
        g = [['0'] * n for _ in range(n)]
        while all(g[i][j] == '0' for i in range(n) for j in range(i)):
            for i in range(n):
                for j in range(i, n):
                    g[i][j] = g[j][i] = rng.choice(['0', '1', 'p', 'q', '-1', 's', 'p+1'])
        a['g'] = g
    elif kind == 'default':
        a['g'] = None
    if coords is None:
        coords = rng.random() < .3 and n > 0
    if coords:
        a['coords'] = (NAMES + ['t', 's'])[:n]
    if rng.random() < .2 and (a['basis'].startswith('e') or a['basis'].startswith('gamma')):
        a['wedge'] = False
    if gsym and a['n'] and rng.random() < gsym:
        a['gsym'] = rng.choice(['g', 'w'])
    return a


def metric_of(a):
    """Expected metric as list of lists of sympy expressions; None when the default symbolic one."""
    if a['g'] is None:
        return None
    n = a['n']
    g = a['g']
    if n and isinstance(g[0], list):
        return [[parse(g[i][j]) for j in range(n)] for i in range(n)]
    return [[parse(g[i]) if i == j else S.Zero for j in range(n)] for i in range(n)]


def metric_args(a):
    kw = {}
    n = a['n']
    if a['g'] is not None:
        g = a['g']
        if n and isinstance(g[0], list):
            kw['g'] = [[parse(x) for x in r] for r in g]
        else:
            kw['g'] = [parse(x) for x in g]
    if a.get('coords'):
        kw['coords'] = tuple(Symbol(c, real=True) for c in a['coords'])
    for k in ('norm', 'Isq', 'sig', 'gsym'):
        if k in a:
            kw[k] = a[k]
    return kw


def metric(a):
    """The library's Metric object of an algebra description, without an algebra on top."""
    from galgebra.metric import Metric
    kw = metric_args(a)
    kw.pop('gsym', None)
    return Metric(a['basis'], **kw)


def build(a):
    """Instantiate the algebra. Returns (ga, expected metric)."""
    from galgebra.ga import Ga
    n = a['n']
    kw = metric_args(a)
    if 'wedge' in a:
        kw['wedge'] = a['wedge']
    ga = Ga(a['basis'], **kw)
    g = metric_of(a)
    if g is None:
        g = [[ga.g[i, j] for j in range(n)] for i in range(n)]
    set_det(ga, g)
    return ga, g


def set_det(ga, g):
    """Remember what the symbolic determinant of an algebra with option gsym stands for."""
    from . import num
    num.DETS.clear()
    if ga.gsym is not None:
        num.DETS[ga.detg] = Matrix(ga.n, ga.n, lambda i, j: g[i][j]).det()


COEF_KINDS = ('int', 'rat', 'sym', 'poly', 'func')


def coef(rng, kind):
    if kind == 'int':
        return str(rng.choice([-4, -3, -2, -1, 1, 2, 3, 5]))
    if kind == 'rat':
        return nzrat(rng)
    if kind == 'sym':
        return rng.choice(['a', 'b', 'c', 'd', '-a', '2*b', '-c/3'])
    if kind == 'poly':
        return rng.choice(['a+b', 'a*b', 'a**2-1', '(a+1)*(b-2)', 'a-c', '(a+b)**2', '2*c+1', '-(a-b)*c', 'a/(1+b**2)'])
    if kind == 'func':
        return rng.choice(['sin(a)', 'cos(b)', 'sqrt(2)', 'exp(c)', 'sin(a)*cos(b)', 'sqrt(3)*a', '1/(1+b**2)', 'cosh(a)'])
    if kind == 'xpoly':
        return rng.choice(['x', 'y', 'x*y', 'x**2', 'x**2-y', 'x*y**2+3', '2*x-y', '1', 'x**3', '-2', 'x*y*a'])
    if kind == 'xfunc':
        return rng.choice(['sin(x)', 'cos(x*y)', 'exp(x)', 'x*sin(y)', 'exp(x)*cos(y)', '1/(1+x**2)', 'x**2*y', '3'])
    raise ValueError(kind)


def _few(rng, n, style):
    by_grade = lambda r: sum(1 << i for i in rng.sample(range(n), r))
    k = rng.randint(1, 4)
    if style in ('vector', 'grade'):
        r = 1 if style == 'vector' else rng.randint(0, n)
        gr = [r] * k
    elif style in ('even', 'odd'):
        gr = [rng.choice(range(style == 'odd', n + 1, 2)) for _ in range(k)]
    elif style == 'blade':
        gr = [rng.randint(0, n)]
    elif style == 'scalar':
        gr = [0]
    elif style == 'scalar+':
        gr = [0] + [rng.randint(0, n) for _ in range(2)]
    elif style == 'zero1':
        gr = [rng.randint(0, n)] * rng.randint(0, 1)
    else:
        gr = [rng.randint(0, n) for _ in range(k)]
    return list(dict.fromkeys(by_grade(r) for r in gr))


def mvspec(rng, n, kinds=('int', 'rat', 'sym'), style=None):
    """[[mask, coefstring], ...]"""
    N = 1 << n
    style = style or rng.choice(['dense', 'sparse', 'sparse', 'grade', 'vector', 'blade', 'even', 'odd', 'scalar+', 'scalar', 'zero1'])
    ck = rng.choice(list(kinds))
    pick = lambda: coef(rng, ck if rng.random() < .8 else 'int')
    if n > 5:  # a few blades of every grade
        return [[m, pick()] for m in _few(rng, n, style)]
    pc = lambda b: bin(b).count('1')
    if style == 'dense':
        ms = [b for b in range(N) if rng.random() < .8]
    elif style == 'sparse':
        ms = rng.sample(range(N), min(N, rng.randint(1, 3)))
    elif style == 'grade':
        r = rng.randint(0, n)
        ms = [b for b in range(N) if pc(b) == r and rng.random() < .8]
    elif style == 'vector':
        ms = [1 << i for i in range(n) if rng.random() < .85]
    elif style == 'blade':
        ms = [rng.randrange(N)]
    elif style == 'even':
        ms = [b for b in range(N) if pc(b) % 2 == 0 and rng.random() < .8]
    elif style == 'odd':
        ms = [b for b in range(N) if pc(b) % 2 == 1 and rng.random() < .8]
    elif style == 'scalar+':
        ms = [0] + rng.sample(range(N), min(N, 2))
        ms = list(dict.fromkeys(ms))
    elif style == 'scalar':
        ms = [0]
    else:
        ms = [] if rng.random() < .3 else [rng.randrange(N)]
    return [[m, pick()] for m in ms]


def mk(ga, spec, unexpanded=False):
    """Build a multivector from a spec through the library's blade table."""
    d = ga.indexes_to_blades_dict
    obj = S.Zero
    for m, c in spec:
        idx = tuple(i for i in range(ga.n) if m >> i & 1)
        obj += parse(c) * d[idx]
    return ga.mv(obj)


def scalar_spec(rng):
    return rng.choice(['2', '-1', '0', '3', '1/2', '-5/3', 'a', 'a+b', '-c', 'a*b', 'sqrt(2)', '1'])


def as_py_scalar(rng, s):
    """Sometimes a python int, otherwise a sympy expression."""
    e = parse(s)
    if e.is_Integer and rng.random() < .6:
        return int(e)
    return e


def subseed(*parts):
    return '|'.join(str(p) for p in parts)


def rng_for(spec):
    return random.Random(subseed(spec.get('family'), spec.get('seed')))
