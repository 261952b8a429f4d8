"""Numeric specialisation of sympy expressions and galgebra multivectors."""
import hashlib
from fractions import Fraction

import mpmath
from sympy import (Add, Derivative, Expr, Float, Integer, Mul, Pow, Rational, S, Symbol, expand,
                   sympify, nan, zoo, oo, Determinant as _SDet)
from sympy.core.function import AppliedUndef
from sympy.core.numbers import NumberSymbol, ImaginaryUnit

from . import ref


# symbolic determinants (option gsym of Ga) -> the determinant they stand for
DETS = {}


class Malformed(Exception):
    """A multivector whose content is not a linear combination of basis blades."""


class NonFinite(Exception):
    """A coefficient evaluates to zoo/oo/nan."""


class Env:
    """Deterministic assignment of rational values to symbols and opaque function values."""

    def __init__(self, seed=0, values=None, positive=(), wide=False):
        self.wide = wide
        self.seed = str(seed)
        self.values = dict(values or {})
        self.positive = set(positive)
        self._cache = {}

    def _val(self, key, positive):
        h = int(hashlib.md5((self.seed + '|' + key).encode()).hexdigest(), 16)
        if self.wide:
            # accidental zeros of small expressions are practically excluded
            den = (101, 103, 107, 109)[h % 4]
            num = 1 + (h >> 8) % (3 * den)
            if num % den == 0:
                num += 1
            if not positive and (h >> 40) % 2:
                num = -num
            return Rational(num, den)
        den = (2, 3, 5, 7)[h % 4]
        num = 1 + (h >> 8) % (3 * den)
        if num % den == 0:
            num += 1        # integers are too often special points
        if not positive and (h >> 40) % 2:
            num = -num
        return Rational(num, den)

    def atom(self, a):
        if a in self.values:
            return sympify(self.values[a])
        if a not in self._cache:
            pos = (a in self.positive) or bool(getattr(a, 'is_positive', False))
            self._cache[a] = self._val(type(a).__name__ + ':' + str(a), pos)
        return self._cache[a]

    def opaque(self, e):
        """Maximal subexpressions treated as independent generators."""
        if isinstance(e, (Derivative, AppliedUndef)):
            return True
        if isinstance(e, Symbol):
            return e.is_commutative
        nm = type(e).__name__
        if nm in ('DotProductSymbol', 'Determinant'):
            return True
        return False

    def subs_map(self, e):
        out = {}
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.opaque(x):
                out[x] = self.atom(x)
            else:
                stack.extend(getattr(x, 'args', ()))
        return out

    def spec(self, e):
        """Expression with every generator replaced by its rational value."""
        e = sympify(e)
        if DETS:
            e = undet(e)
        m = self.subs_map(e)
        return e.xreplace(m) if m else e

    def num(self, e):
        """Number (Fraction or mpf/mpc) of a commutative expression."""
        return to_number(self.spec(e))


def undet(e):
    """Replace symbolic determinants, also below derivatives."""
    if not getattr(e, 'has', None) or not any(e.has(d) for d in DETS):
        return e
    ders = [d for d in e.atoms(Derivative) if isinstance(d.expr, _SDet)]
    return e.xreplace({d: d.xreplace(DETS).doit() for d in ders}).xreplace(DETS)


def to_number(e):
    e = sympify(e)
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e in (zoo, oo, -oo, nan) or e.has(zoo, oo, -oo, nan):
        raise NonFinite(str(e))
    v = e.evalf(45)
    if v in (zoo, oo, -oo, nan) or v.has(zoo, oo, nan):
        raise NonFinite(str(e))
    re, im = v.as_real_imag()
    if not (re.is_number and im.is_number):
        raise Malformed('non-numeric coefficient %s' % (e,))
    re = mpmath.mpf(str(re.evalf(45))) if not re.is_Rational else mpmath.mpf(int(re.p)) / int(re.q)
    im = mpmath.mpf(str(im.evalf(45))) if not im.is_Rational else mpmath.mpf(int(im.p)) / int(im.q)
    if im == 0 or abs(im) < mpmath.mpf('1e-30') * max(1, abs(re)):
        return re
    return mpmath.mpc(re, im)


def blade_map(ga):
    """Blade symbol -> bitmask, from the algebra's published index tables."""
    m = getattr(ga, '_gamon_blade_map', None)
    if m is None:
        m = {}
        for idx, blade in ga.indexes_to_blades_dict.items():
            m[blade] = ref.mask(idx)
        ga._gamon_blade_map = m
    return m


def base_map(ga):
    m = getattr(ga, '_gamon_base_map', None)
    if m is None:
        m = {}
        for idx, b in ga.indexes_to_bases_dict.items():
            if len(idx) > 1:
                m[b] = tuple(idx)
        ga._gamon_base_map = m
    return m


def obj_terms(obj, env):
    """Yield (nc_atom or None, number) of the specialised expanded expression."""
    e = env.spec(obj)
    e = expand(e)
    for t in Add.make_args(e):
        if t == 0:
            continue
        if t in (zoo, oo, -oo, nan) or t.has(zoo, oo, nan):
            raise NonFinite(str(t)[:200])
        c, nc = t.args_cnc()
        if not nc:
            yield None, to_number(t)
        else:
            if len(nc) == 1 and isinstance(nc[0], Add):
                # sympy leaves nested sums when coefficients cancel to one
                k = to_number(Mul(*c))
                for b, x in obj_terms(nc[0], env):
                    yield b, ref.nmul(k, x)
                continue
            if len(nc) != 1 or isinstance(nc[0], Pow):
                raise Malformed('term %s is not coefficient*blade' % (t,))
            yield nc[0], to_number(Mul(*c))


def mv_value(A, env, ga=None, cl=None):
    """Multivector (or scalar expression) -> {bitmask: number}.

    ``cl`` (a ref.Clifford) is needed to evaluate geometric-product ("base")
    representation terms of non-orthogonal algebras.
    """
    obj = getattr(A, 'obj', None)
    if obj is None or not hasattr(A, 'Ga'):
        v = env.num(A)
        return ref.clean({0: v})
    ga = A.Ga
    bm = blade_map(ga)
    out = {}
    for sym, c in obj_terms(obj, env):
        if sym is None:
            out[0] = ref.nadd(out.get(0, 0), c)
        elif sym in bm:
            k = bm[sym]
            out[k] = ref.nadd(out.get(k, 0), c)
        else:
            idx = base_map(ga).get(sym) if not ga.is_ortho else None
            if idx is None or cl is None:
                raise Malformed('symbol %s is not a basis blade of this algebra' % (sym,))
            P = {0: c}
            for i in idx:
                P = cl.gp(P, {1 << i: 1})
            out = ref.add(out, P)
    return ref.clean(out)


def metric_value(g, env):
    n = g.rows if hasattr(g, 'rows') else len(g)
    return [[env.num(g[i, j] if hasattr(g, 'rows') else g[i][j]) for j in range(n)] for i in range(n)]
