"""Coordinate systems and an independent calculus on them.

A field is a dict {bitmask: sympy expression}.  Derivatives are applied with a
connection computed here from the metric; nothing of galgebra is used.  Values
are taken at one random point, so no symbolic simplification is involved.
"""
import random
import re

from sympy import Matrix, Rational, S, Symbol, cos, cosh, diff, exp, sin, sinh, sqrt, sympify

from . import gen, num, ref

x, y, z, w = [Symbol(s, real=True) for s in 'xyzw']
XYZ = (x, y, z, w)


class Geometry:
    """Metric g(x) (list of lists of expressions), optionally with a normalised frame."""

    def __init__(self, coords, g, norm=False, env=None, G=None):
        self.coords = list(coords)
        self.n = len(self.coords)
        n = self.n
        self.raw = [[sympify(e) for e in r] for r in g]
        self.norm = norm
        self.env = env
        R = range(n)
        self.graw = [[env.num(e) for e in r] for r in self.raw]
        inv = Matrix(n, n, lambda i, j: self.raw[i][j])
        self.curved = any(self.raw[i][j].has(*self.coords) for i in R for j in R) if n else False
        self.ginv = [[S.Zero] * n for _ in R]
        M = (inv.inv(method='ADJ') if n else inv)
        for i in R:
            for j in R:
                self.ginv[i][j] = M[i, j]
        # Gamma[i][j][k]: d_i e_j = Gamma^k_ij e_k
        self.G1 = [[[(diff(self.raw[j][k], self.coords[i]) + diff(self.raw[i][k], self.coords[j]) -
                      diff(self.raw[i][j], self.coords[k])) / 2 for k in R] for j in R] for i in R]
        self.G2 = G or [[[sum((self.G1[i][j][l] * self.ginv[l][k] for l in R), S.Zero) for k in R] for j in R] for i in R]
        if norm:
            self.s = []
            for j in R:
                e = 1 if self.graw[j][j] > 0 else -1
                self.s.append(1 / sqrt(e * self.raw[j][j]))
            self.conn = [[[self.s[j] * self.G2[i][j][k] / self.s[k] + (diff(self.s[j], self.coords[i]) / self.s[j] if j == k else 0)
                           for k in R] for j in R] for i in R]
            self.g = [[self.raw[i][j] * self.s[i] * self.s[j] for j in R] for i in R]
        else:
            self.s = [S.One] * n
            self.conn = self.G2
            self.g = self.raw
        self.gnum = [[env.num(e) for e in r] for r in self.g]
        self.cl = ref.Clifford(self.gnum)
        # reciprocal frame vectors of the (unnormalised) coordinate basis, expressed in the frame
        # e^i = ginv_raw[i][j] e_j = ginv_raw[i][j] ehat_j / s_j
        self.recip_sym = [[self.ginv[i][j] / self.s[j] for j in R] for i in R]
        self.recip = [ref.clean({1 << j: env.num(self.recip_sym[i][j]) for j in R}) for i in R]

    def D(self, i, F, connect=True):
        """d/dx_i of a field (symbolic, unsimplified)."""
        out = {}
        for m, c in F.items():
            dc = diff(c, self.coords[i]) if not isinstance(i, Symbol) else diff(c, i)
            if dc != 0:
                out[m] = out.get(m, S.Zero) + dc
            if isinstance(i, Symbol) or not self.curved or not connect:
                continue
            idx = ref.bits(m)
            for pos, j in enumerate(idx):
                rest = m & ~(1 << j)
                for k in range(self.n):
                    if rest >> k & 1 or self.conn[i][j][k] == 0:
                        continue
                    # replace e_j at its position by e_k, then sort
                    before = ref.mask(idx[:pos])
                    after = ref.mask(idx[pos + 1:])
                    sg = ref.wedge_sign(before, 1 << k) * ref.wedge_sign(before | 1 << k, after)
                    mm = rest | 1 << k
                    out[mm] = out.get(mm, S.Zero) + sg * c * self.conn[i][j][k]
        return out

    def Ds(self, var, F):
        """Derivative with respect to a symbol: covariant for coordinates, plain otherwise."""
        if var in self.coords:
            return self.D(self.coords.index(var), F)
        return {m: diff(c, var) for m, c in F.items()}

    def Dp(self, pd, F):
        """Multi-derivative {symbol: order}."""
        for v, k in pd.items():
            for _ in range(k):
                F = self.Ds(v, F)
        return F

    def num(self, F):
        return ref.clean({m: self.env.num(c) for m, c in F.items()})

    def recip_field(self, i):
        return {1 << j: self.recip_sym[i][j] for j in range(self.n) if self.recip_sym[i][j] != 0}

    def grad(self, op, F, left=True):
        R = {}
        for i in range(self.n):
            d = self.num(self.D(i, F))
            R = ref.add(R, self.cl.product(op, self.recip[i], d) if left else self.cl.product(op, d, self.recip[i]))
        return R

    def grad_fields(self):
        """[(coefficient field, {symbol: order})] of the gradient operator."""
        return [(self.recip_field(i), {self.coords[i]: 1}) for i in range(self.n)]


# name, dimension, cartesian map (None when only a metric), metric (strings), extras
P = gen.parse


def systems():
    out = []

    def add(name, n, g, X=None, flat=None, ortho=True, big=False):
        out.append({'name': name, 'n': n, 'g': g, 'X': X, 'flat': flat, 'ortho': ortho, 'big': big})
    E = lambda n: ['1'] * n
    add('line', 1, ['1'], ['x'], E(1))
    add('cart2', 2, E(2), ['x', 'y'], E(2))
    add('cart3', 3, E(3), ['x', 'y', 'z'], E(3))
    add('mink2', 2, ['1', '-1'], ['x', 'y'], ['1', '-1'])
    add('mink3', 3, ['1', '-1', '-1'], ['x', 'y', 'z'], ['1', '-1', '-1'])
    add('oblique2', 2, [['1', '1/2'], ['1/2', '2']], None, None, False)
    add('oblique3', 3, [['1', '1/2', '0'], ['1/2', '2', '-1'], ['0', '-1', '1']], None, None, False)
    add('obliquesym', 2, [['1', 'k'], ['k', '2']], None, None, False)
    add('scaled2', 2, ['4', '1/9'], None, None)
    add('linecurved', 1, ['x**2+1'], None, None)
    add('polar', 2, ['1', 'x**2'], ['x*cos(y)', 'x*sin(y)'], E(2))
    add('cyl', 3, ['1', 'x**2', '1'], ['x*cos(y)', 'x*sin(y)', 'z'], E(3))
    add('sph', 3, ['1', 'x**2', 'x**2*sin(y)**2'], ['x*sin(y)*cos(z)', 'x*sin(y)*sin(z)', 'x*cos(y)'], E(3), big=True)
    add('parab', 2, ['x**2+y**2', 'x**2+y**2'], ['(x**2-y**2)/2', 'x*y'], E(2))
    add('rindler', 2, ['1', '-x**2'], ['x*cosh(y)', 'x*sinh(y)'], ['1', '-1'])
    add('logpolar', 2, ['exp(2*x)', 'exp(2*x)'], ['exp(x)*cos(y)', 'exp(x)*sin(y)'], E(2))
    add('shear', 2, [['1+4*x**2', '2*x'], ['2*x', '1']], ['x', 'y+x**2'], E(2), False)
    add('skewpolar', 2, None, ['x*cos(y)+x', 'x*sin(y)'], E(2), False)
    add('shear3', 3, None, ['x', 'y+x*z', 'z'], E(3), False, big=True)
    add('sphere', 2, ['1', 'sin(x)**2'], None, None)
    add('hyperbolic', 2, ['1/y**2', '1/y**2'], None, None)
    add('nonflat2', 2, [['1', 'x'], ['x', '1+2*x**2']], None, None, False)
    add('nonflat2b', 2, [['1+y**2', 'y'], ['y', '2']], None, None, False)
    add('warp3', 3, ['1', '-1', '1+x**2'], None, None)
    add('frw', 3, ['-1', 'x**2', 'x**2'], None, None)
    add('mix3', 3, [['1', '0', 'x'], ['0', '1', '0'], ['x', '0', '1+2*x**2']], None, None, False, big=True)
    add('cart4', 4, E(4), ['x', 'y', 'z', 'w'], E(4))
    add('mink4', 4, ['1', '-1', '-1', '-1'], ['x', 'y', 'z', 'w'], ['1', '-1', '-1', '-1'])
    add('warp4', 4, ['-exp(2*w)', '1', 'y**2', '1+x**2'], None, None, big=True)
    add('oblique4', 4, [['1', '1/2', '0', '0'], ['1/2', '2', '0', '-1'], ['0', '0', '-1', '0'], ['0', '-1', '0', '3']], None, None, False, big=True)
    add('param', 2, ['1', 'k**2*x**2'], None, None)
    for s in out:
        if s['g'] is None:
            n = s['n']
            X = [P(e) for e in s['X']]
            c = XYZ[:n]
            fl = [P(e) for e in s['flat']]
            s['g'] = [[str((sum(fl[a] * diff(X[a], c[i]) * diff(X[a], c[j]) for a in range(n))).expand().trigsimp())
                       for j in range(n)] for i in range(n)]
    return out


def metric_matrix(s):
    n = s['n']
    g = s['g']
    if isinstance(g[0], list):
        return [[P(e) for e in r] for r in g]
    return [[P(g[i]) if i == j else S.Zero for j in range(n)] for i in range(n)]


def build(s, rng, norm=False, via='g', gsym=0):
    """Instantiate the library's algebra for a system."""
    from galgebra.ga import Ga
    n = s['n']
    coords = XYZ[:n]
    basis = gen.basis_string(rng, n)
    kw = {'coords': coords}
    if via == 'X':
        kw['X'] = [P(c) for c in s['X']]
    else:
        g = s['g']
        kw['g'] = [[P(e) for e in r] for r in g] if isinstance(g[0], list) else [P(e) for e in g]
    if norm:
        kw['norm'] = True
    elif gsym and rng.random() < gsym:
        kw['gsym'] = rng.choice(['g', 'w'])
    ga = Ga(basis, **kw)
    gen.set_det(ga, metric_matrix(s))
    return ga


def metric(s, rng):
    """The library's Metric object for a system, without an algebra on top."""
    from galgebra.metric import Metric
    n, g = s['n'], s['g']
    g = [[P(e) for e in r] for r in g] if isinstance(g[0], list) else [P(e) for e in g]
    return Metric(gen.basis_string(rng, n), g=g, coords=XYZ[:n])


def geometry(s, env, norm=False):
    return Geometry(XYZ[:s['n']], metric_matrix(s), norm=norm, env=env)


def env_for(seed):
    """Random point with positive coordinates (the open domain of every chart here)."""
    rng = random.Random('geo' + str(seed))
    vals = {}
    for s in XYZ:
        d = rng.choice((7, 11, 13))
        vals[s] = Rational(rng.randint(2, d - 1) + d * rng.randint(0, 1) // 2, d)     # inside (0, 3/2)
    return num.Env(seed, values=vals, positive={Symbol('k', real=True)})


def fieldspec(rng, n, style=None, kinds=('xpoly', 'xfunc', 'int')):
    names = 'xyz'[:n]
    ms = gen.mvspec(rng, n, ('int',), style)
    out = []
    for m, _ in ms:
        k = rng.choice(list(kinds))
        c = gen.coef(rng, k)
        if n > 3 and rng.random() < .5:
            c = re.sub(r'\b%s\b' % rng.choice('xyz'), 'w', c)
        out.append([m, c])
    return out


def field(spec):
    F = {}
    for m, c in spec:
        F[m] = F.get(m, S.Zero) + P(c)
    return F


def mvfield(ga, F):
    d = ga.indexes_to_blades_dict
    obj = S.Zero
    for m, c in F.items():
        obj += c * d[tuple(ref.bits(m))]
    return ga.mv(obj)


def random_system(rng):
    """A system not in the list: random diagonal metric, random 2-d metric, or random shear map of flat space."""
    k = rng.randrange(3)
    if k == 0:
        n = rng.choice([1, 2, 2, 3])
        v = 'xyz'[:n]
        pos = lambda: rng.choice(['1', '2', '1+{0}**2', '{0}**2', 'exp({0})', '1/(1+{0}**2)', '(1+{0})**2', 'cosh({0})**2', 'exp(2*{0})',
                                  'x**2*(1+{0})**2', '4*{0}**2']).format(rng.choice(v))
        return {'name': 'rand-diag', 'n': n, 'g': [rng.choice(['', '', '-']) + '(' + pos() + ')' for _ in range(n)], 'X': None, 'flat': None,
                'ortho': True, 'big': False}
    if k == 1:
        f = lambda: rng.choice(['x', 'y', 'x*y', 'x+y', '1/2', 'x**2', '-y'])
        h = f()
        a, b = rng.choice(['1', '2+x', '1+y**2']), rng.choice(['1', '3', '2+y'])
        return {'name': 'rand-nonortho', 'n': 2, 'g': [[a, h], [h, '(%s)+(%s)**2' % (b, h)]], 'X': None, 'flat': None, 'ortho': False, 'big': False}
    q = rng.choice(['y**2', 'x*y', 'y**3', '2*y', 'y**2/2'])
    p = rng.choice(['x', '2*x', 'x+x**3'])
    flat = rng.choice([['1', '1'], ['1', '1'], ['1', '-1'], ['2', '1']])
    X = [p + '+' + q.replace('x*', ''), 'y'] if rng.random() < .5 else [p, 'y+x**2']
    d = [P(e) for e in X]
    c = XYZ[:2]
    g = [[str((sum(P(flat[t]) * diff(d[t], c[i]) * diff(d[t], c[j]) for t in range(2))).expand()) for j in range(2)] for i in range(2)]
    return {'name': 'rand-map', 'n': 2, 'g': g, 'X': X, 'flat': flat, 'ortho': False, 'big': False}


def system(idx, seed):
    if idx >= 0:
        return systems_cached()[idx]
    return random_system(random.Random('%s|%s' % (idx, seed)))


_S = None


def systems_cached():
    global _S
    if _S is None:
        _S = systems()
    return _S
