"""Reference model of Clifford algebras over plain numbers.

Nothing here imports sympy or galgebra.  A multivector is a dict
``{bitmask: number}``: bit ``i`` set means basis vector ``i`` is a factor of the
*wedge* basis blade (factors in increasing order).  Numbers are Fractions, or
mpmath mpf/mpc when a workload needs irrational coefficients.

All products are derived from two primitives, valid for any symmetric metric
(orthogonal or not, degenerate or not):

* the exterior product of basis blades (sorting sign, zero on repetition);
* contraction of a vector onto a blade,
  e_i _| (e_a ^ B) = g_ia B - e_a ^ (e_i _| B).
"""
from fractions import Fraction

import mpmath

mpmath.mp.dps = 40


def popcount(b):
    return bin(b).count('1')


def bits(b):
    return [i for i in range(b.bit_length()) if b >> i & 1]


def mask(idx):
    m = 0
    for i in idx:
        m |= 1 << i
    return m


def is_exact(x):
    return isinstance(x, (int, Fraction))


def to_mp(x):
    if isinstance(x, int):
        return mpmath.mpf(x)
    if isinstance(x, Fraction):
        return mpmath.mpf(x.numerator) / x.denominator
    return x


def nadd(a, b):
    if is_exact(a) and is_exact(b):
        return a + b
    return to_mp(a) + to_mp(b)


def nmul(a, b):
    if is_exact(a) and is_exact(b):
        return a * b
    return to_mp(a) * to_mp(b)


def ndiv(a, b):
    if is_exact(a) and is_exact(b):
        return Fraction(a) / Fraction(b)
    return to_mp(a) / to_mp(b)


class NotFinite(Exception):
    pass


def close(a, b, scale=1, tol=mpmath.mpf('1e-20')):
    if is_exact(a) and is_exact(b):
        return a == b
    d = abs(to_mp(a) - to_mp(b))
    s = max(1, abs(to_mp(a)), abs(to_mp(b)), abs(to_mp(scale)))
    return d <= tol * s


def clean(A):
    return {k: v for k, v in A.items() if not (is_exact(v) and v == 0)}


def add(A, B):
    C = dict(A)
    for k, v in B.items():
        C[k] = nadd(C.get(k, 0), v)
    return clean(C)


def smul(s, A):
    return clean({k: nmul(s, v) for k, v in A.items()})


def neg(A):
    return smul(-1, A)


def sub(A, B):
    return add(A, neg(B))


def equal(A, B, scale=None):
    if scale is None:
        scale = max([1] + [abs(to_mp(v)) for v in A.values()] + [abs(to_mp(v)) for v in B.values()])
    return all(close(A.get(k, 0), B.get(k, 0), scale) for k in set(A) | set(B))


def grade_part(A, r):
    return {k: v for k, v in A.items() if popcount(k) == r}


def grade_map(A, f):
    return clean({k: nmul(f(popcount(k)), v) for k, v in A.items()})


def rev(A):
    return grade_map(A, lambda r: -1 if (r * (r - 1) // 2) % 2 else 1)


def invol(A):
    return grade_map(A, lambda r: -1 if r % 2 else 1)


def ccon(A):
    return grade_map(A, lambda r: -1 if (r * (r + 1) // 2) % 2 else 1)


def scalar(A):
    return A.get(0, 0)


def wedge_sign(a, b):
    """Sign of sorting e_a ^ e_b, 0 when they share a factor."""
    if a & b:
        return 0
    s = 0
    for i in bits(b):
        s += popcount(a >> (i + 1))
    return -1 if s % 2 else 1


def wedge(A, B):
    C = {}
    for a, x in A.items():
        for b, y in B.items():
            s = wedge_sign(a, b)
            if s:
                C[a | b] = nadd(C.get(a | b, 0), nmul(s, nmul(x, y)))
    return clean(C)


class Clifford:
    """Clifford algebra of the bilinear form with Gram matrix ``g`` (list of lists)."""

    def __init__(self, g):
        self.n = len(g)
        self.g = [list(r) for r in g]
        for i in range(self.n):
            for j in range(self.n):
                assert close(self.g[i][j], self.g[j][i]), 'metric not symmetric'
        self._gp = {}

    # contraction of basis vector i onto a multivector
    def _ivec(self, i, A):
        C = {}
        for k, v in A.items():
            for pos, j in enumerate(bits(k)):
                w = nmul(v, self.g[i][j])
                if pos % 2:
                    w = nmul(-1, w)
                kk = k & ~(1 << j)
                C[kk] = nadd(C.get(kk, 0), w)
        return clean(C)

    def _evec_gp(self, i, A):
        return add(self._ivec(i, A), wedge({1 << i: 1}, A))

    def _gp_blades(self, a, b):
        key = (a, b)
        if key in self._gp:
            return self._gp[key]
        if a == 0:
            r = {b: 1}
        else:
            # a = e_i ^ rest ; (e_i ^ R) B = e_i (R B) - (e_i _| R) B
            i = (a & -a).bit_length() - 1
            rest = a & ~(1 << i)
            r = self._evec_gp(i, self._gp_blades(rest, b))
            for k, v in self._ivec(i, {rest: 1}).items():
                r = sub(r, smul(v, self._gp_blades(k, b)))
        self._gp[key] = r
        return r

    def gp(self, A, B):
        C = {}
        for a, x in A.items():
            for b, y in B.items():
                xy = nmul(x, y)
                for k, v in self._gp_blades(a, b).items():
                    C[k] = nadd(C.get(k, 0), nmul(xy, v))
        return clean(C)

    def wedge(self, A, B):
        return wedge(A, B)

    def _select(self, A, B, f):
        C = {}
        for a, x in A.items():
            for b, y in B.items():
                r = f(popcount(a), popcount(b))
                if r is None or r < 0:
                    continue
                xy = nmul(x, y)
                for k, v in self._gp_blades(a, b).items():
                    if popcount(k) == r:
                        C[k] = nadd(C.get(k, 0), nmul(xy, v))
        return clean(C)

    def hestenes(self, A, B):
        return self._select(A, B, lambda r, s: None if 0 in (r, s) else abs(r - s))

    def lcont(self, A, B):
        return self._select(A, B, lambda r, s: s - r)

    def rcont(self, A, B):
        return self._select(A, B, lambda r, s: r - s)

    def sprod(self, A, B):
        return self._select(A, B, lambda r, s: 0 if r == s else None)

    def product(self, op, A, B):
        return {'*': self.gp, '^': self.wedge, '|': self.hestenes,
                '<': self.lcont, '>': self.rcont}[op](A, B)

    def ps(self):
        return {(1 << self.n) - 1: 1}

    def power(self, A, k):
        R = {0: 1}
        for _ in range(k):
            R = self.gp(R, A)
        return R

    def exp(self, A):
        """Power series with scaling and squaring, in mpmath."""
        A = {k: to_mp(v) for k, v in A.items()}
        big = max([abs(v) for v in A.values()] + [mpmath.mpf(0)])
        s = 0
        while big * (2 ** self.n) > 2 ** s:
            s += 1
        A = smul(mpmath.mpf(1) / 2 ** s, A)
        R = {0: mpmath.mpf(1)}
        T = {0: mpmath.mpf(1)}
        for k in range(1, 60):
            T = smul(mpmath.mpf(1) / k, self.gp(T, A))
            R = add(R, T)
        for _ in range(s):
            R = self.gp(R, R)
        return R

    def outermorphism(self, cols, A):
        """Apply the outermorphism of the matrix whose j-th column is cols[j]."""
        vec = [{1 << i: c for i, c in enumerate(col) if not (is_exact(c) and c == 0)} for col in cols]
        R = {}
        for k, v in A.items():
            B = {0: v}
            for j in bits(k):
                B = wedge(B, vec[j])
            R = add(R, B)
        return R

    def reverse_trick_inverse(self, A):
        """Inverse by solving the left-multiplication linear system; None if singular."""
        N = 1 << self.n
        cols = [self.gp(A, {b: 1}) for b in range(N)]
        M = [[cols[b].get(r, 0) for b in range(N)] + [1 if r == 0 else 0] for r in range(N)]
        sol = solve(M, N)
        if sol is None:
            return None
        return clean({b: sol[b] for b in range(N)})


def solve(M, N):
    """Gauss-Jordan on augmented matrix (N x N+1); None when singular."""
    M = [list(r) for r in M]
    exact = all(is_exact(x) for r in M for x in r)
    if exact:
        M = [[Fraction(x) for x in r] for r in M]
    else:
        M = [[to_mp(x) for x in r] for r in M]
    for c in range(N):
        p = None
        best = 0
        for r in range(c, N):
            a = abs(M[r][c])
            if a > best:
                best, p = a, r
        if p is None or (not exact and best < mpmath.mpf('1e-25')):
            return None
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        for r in range(N):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][N] for i in range(N)]


def det(m):
    n = len(m)
    if n == 0:
        return 1
    m = [list(r) for r in m]
    exact = all(is_exact(x) for r in m for x in r)
    m = [[Fraction(x) if exact else to_mp(x) for x in r] for r in m]
    d = Fraction(1) if exact else mpmath.mpf(1)
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0:
            return 0
        if p != c:
            m[c], m[p] = m[p], m[c]
            d = -d
        d *= m[c][c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return d


def matinv(m):
    n = len(m)
    out = []
    for j in range(n):
        col = solve([list(m[i]) + [1 if i == j else 0] for i in range(n)], n)
        if col is None:
            return None
        out.append(col)
    return [[out[j][i] for j in range(n)] for i in range(n)]


def matmul(a, b):
    out = []
    for i in range(len(a)):
        row = []
        for j in range(len(b[0])):
            s = 0
            for k in range(len(b)):
                s = nadd(s, nmul(a[i][k], b[k][j]))
            row.append(s)
        out.append(row)
    return out


def self_test():
    """Axioms of the reference itself; run by setup and by every check once."""
    import random
    rng = random.Random(12345)
    for n in range(0, 5):
        for _ in range(3):
            g = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    g[i][j] = g[j][i] = Fraction(rng.randint(-3, 3), rng.choice([1, 2]))
            C = Clifford(g)

            def rmv():
                return clean({b: rng.randint(-3, 3) for b in range(1 << n)})
            A, B, D = rmv(), rmv(), rmv()
            assert equal(C.gp(C.gp(A, B), D), C.gp(A, C.gp(B, D)))
            assert equal(rev(C.gp(A, B)), C.gp(rev(B), rev(A)))
            u = {1 << i: rng.randint(-3, 3) for i in range(n)}
            q = 0
            for i in range(n):
                for j in range(n):
                    q += u[1 << i] * u[1 << j] * g[i][j]
            assert equal(C.gp(u, u), clean({0: q}))
            # wedge of vectors = antisymmetrised geometric product
            if n >= 2:
                v = {1 << i: rng.randint(-3, 3) for i in range(n)}
                w = smul(Fraction(1, 2), sub(C.gp(u, v), C.gp(v, u)))
                assert equal(w, wedge(clean(u), clean(v)))
            Ainv = C.reverse_trick_inverse(add(A, {0: 7}))
            if Ainv is not None:
                assert equal(C.gp(add(A, {0: 7}), Ainv), {0: 1})
    return True
