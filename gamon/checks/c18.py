"""C18 multivector derivative with respect to a multivector."""
from sympy import S, Symbol, symbols

from .. import gen, monitor, num, ref, workload

PROP = 'C18'
RULE = ('make_grad of vector, bivector, even, odd, general, single-grade and sparse multivector variables, of coefficient sequences and of the coordinate vector, in random '
        'nonsingular metrics and interleaved orders, left and right acting, combined by every product with random polynomial functions of the variable; the result is compared with '
        'the sum over reciprocal blades of exact directional derivatives computed by the reference algebra. distinct_nontrivial counts distinct (query, dimension, variable, function).')
ASSUMPTIONS = ['the metric is nonsingular', 'the coefficients of the variable are distinct symbols']
REQUIRED = ['left.', 'right.', 'project', 'vecgrad', 'seq', 'repeat', 'coord', 'dot', 'baserep']
CASE_TIMEOUT = {'quick': 20, 'thorough': 240}
KINDS = ('euclid', 'ortho', 'ortho', 'nonsing', 'nonsing', 'null', 'symortho')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('fn', 220), ('known', 120)) for i in range(m * k)]


def app(op, A, B):
    return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B}[op]()


class Fn:
    """A random word f1 op f2 op ... in the variable, constants and involutions."""

    def __init__(self, rng, ga, w, n):
        self.items = []
        k = rng.randint(1, 3)
        where = rng.randrange(k)
        for i in range(k):
            r = rng.random()
            if i == where or r < .35:
                t = rng.choice(['X', 'X', 'X', 'rev', 'inv', 'g%d' % rng.randint(0, n)])
                self.items.append((t, None, None))
            else:
                A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat')))
                self.items.append(('c', A, w.val(A, ga)))
        self.ops = [rng.choice('***^|<>') for _ in range(k - 1)]
        self.desc = ' '.join((t if t != 'c' else '(%s)' % A.obj) + (' ' + o if o else '') for (t, A, _), o in zip(self.items, self.ops + ['']))

    def lib(self, X):
        R = None
        for i, (t, A, _) in enumerate(self.items):
            f = X if t == 'X' else X.rev() if t == 'rev' else X.g_invol() if t == 'inv' else A if t == 'c' else X.get_grade(int(t[1:]))
            R = f if R is None else app(self.ops[i - 1], R, f)
        return R

    def deriv(self, C, x, h):
        """Derivative at x in direction h."""
        def part(t, v):
            return v if t == 'X' else ref.rev(v) if t == 'rev' else ref.invol(v) if t == 'inv' else ref.grade_part(v, int(t[1:]))
        tot = {}
        for k, (tk, _, _) in enumerate(self.items):
            if tk == 'c':
                continue
            R = None
            for i, (t, A, a) in enumerate(self.items):
                f = part(t, h) if i == k else a if t == 'c' else part(t, x)
                R = f if R is None else C.product(self.ops[i - 1], R, f)
            tot = ref.add(tot, R)
        return tot


def recip_blades(C):
    """e^J with <e^J e_K> = delta_JK."""
    n = C.n
    gi = ref.matinv(C.g)
    r = [ref.clean({1 << j: gi[i][j] for j in range(n)}) for i in range(n)]
    out = {}
    for m in range(1 << n):
        b = {0: ref.Fraction(1)}
        for i in reversed(ref.bits(m)):
            b = ref.wedge(b, r[i])
        out[m] = b
    return out


def run(spec, rec):
    rng = gen.rng_for(spec)
    a = gen.algebra(rng, KINDS, nmax=4 if rng.random() < .3 else 3, nmin=1, gsym=.08)
    w, ga = workload.algebra_world(spec, rec, [], a)
    n, C = ga.n, w.cl(ga)
    try:
        RB = recip_blades(C)
    except ZeroDivisionError:
        return
    e = ga.mv()
    nshared = rng.choice([1, 2, 2, 3])

    def variable(kind=None):
        kind = kind or rng.choice(['vector', 'vector', 'bivector', 'even', 'odd', 'mv', 'grade', 'sparse', 'sparse', 'shared', 'shared', 'scalar'])
        if kind == 'bivector' and n < 2:
            kind = 'vector'
        nm = rng.choice(['X', 'Y', 'Z'])
        if kind == 'grade':
            X = ga.mv(nm, 'grade', rng.randint(0, n))
        elif kind == 'even':
            X = ga.mv(nm, 'even') if n else ga.mv(nm, 'scalar')
        elif kind == 'sparse':
            ms = rng.sample(range(1 << n), min(1 << n, rng.randint(1, 3)))
            d = ga.indexes_to_blades_dict
            X = ga.mv(sum((Symbol('%s%d' % (nm, m), real=True) * d[tuple(ref.bits(m))] for m in ms), S.Zero))
        elif kind == 'shared':
            # variables of one algebra that have their symbols in common, on other blades
            ms = rng.sample(range(1 << n), min(1 << n, nshared))
            d = ga.indexes_to_blades_dict
            X = ga.mv(sum((c * d[tuple(ref.bits(m))] for c, m in zip(symbols('p:%d' % nshared, real=True), ms)), S.Zero))
        else:
            X = ga.mv(nm, kind)
        # which blades carry a parameter
        mv_ = num.blade_map(ga)
        coefs = {}
        for b, m in list(mv_.items()) + [(S.One, 0)]:
            c = X.blade_coefs([ga.mv(b)])[0]
            if c != 0:
                coefs[m] = c
        return X, coefs, kind

    if spec['family'] == 'fn':
        pool = [variable() for _ in range(2)]
        if any(p[2] == 'shared' for p in pool):
            pool = [variable('shared') for _ in range(3)]
        for rep in range(4):
            X, coefs, kind = rng.choice(pool)
            if rng.random() < .12:
                D = ga.make_grad(X.base_rep())
                rec.event('baserep', '%s %s' % (n, kind))
                cmp = False
            else:
                cmp = rng.random() < .4
                D = ga.make_grad(X, cmp) if rng.random() < .5 else ga.make_grad(X, cmpflg=cmp)
            f = Fn(rng, ga, w, n)
            try:
                F = f.lib(X)
            except ValueError:
                continue
            x = w.val(X, ga)
            op = rng.choice('****^|<>')
            want = {}
            for m in coefs:
                d = f.deriv(C, x, {m: ref.Fraction(1)})
                want = ref.add(want, C.product(op, RB[m], d) if not cmp else C.product(op, d, RB[m]))
            got = app(op, D, F) if not cmp else app(op, F, D)
            w.judge(('right' if cmp else 'left') + op, ga, [kind, f.desc, op, x], got, want, extra='d/d(%s) cmpflg=%s of %s, metric %s' % (X.obj, cmp, f.desc, a['g']))
            D2 = ga.make_grad(X, cmp)
            got = app(op, D2, F) if not cmp else app(op, F, D2)
            w.judge('repeat', ga, [kind, f.desc, op, x], got, want, extra='second make_grad')
    else:
        X, coefs, kind = variable()
        A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat', 'sym')))
        av = w.val(A, ga)
        D = ga.make_grad(X)
        # <A X> differentiates to the part of A reached by X
        proj = {}
        for m in coefs:
            proj = ref.add(proj, ref.smul(ref.scalar(C.gp(av, {m: ref.Fraction(1)})), RB[m]))
        w.judge('project', ga, [kind, av], D * (A * X).scalar(), proj, extra='grad <AX>, A=%s, X=%s' % (A.obj, X.obj))
        w.judge('project', ga, [kind, av, 'r'], D * (X * A).scalar(), proj, extra='grad <XA>')
        if kind == 'mv':
            w.judge('project', ga, [kind, av, 'full'], D * (A * X).scalar(), av, extra='grad <AX> = A')
        u = ga.mv('u', 'vector')
        v = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector'))
        vv = w.val(v, ga)
        G = ga.make_grad(u)
        w.judge('vecgrad', ga, [vv], G * (u | v), vv, extra='grad_u (u|v)')
        w.judge('vecgrad', ga, [vv, 'right'], (u | v) * ga.make_grad(u, cmpflg=True), vv, extra='(u|v) rgrad_u')
        uu = w.val(u, ga)
        w.judge('vecgrad', ga, ['u.u', uu], G * (u | u), ref.smul(2, uu), extra='grad_u (u|u)')
        w.judge('vecgrad', ga, ['div', n], G | u, {0: ref.Fraction(n)}, extra='grad_u | u')
        w.judge('dot', ga, ['curl', n], G ^ u, {}, extra='grad_u ^ u')
        B = gen.mk(ga, gen.mvspec(rng, n, ('int',)))
        bv = w.val(B, ga)
        want = {}
        for i in range(n):
            want = ref.add(want, C.gp(RB[1 << i], C.gp(bv, {1 << i: ref.Fraction(1)})))
        w.judge('dot', ga, ['Bu', bv], G * (B * u), want, extra='grad_u (B u)')
        # a sequence of coefficients stands for the vector
        cs = [Symbol('s%d' % i, real=True) for i in range(n)]
        seq = rng.choice([list, tuple])(cs)
        us = sum((c * ei for c, ei in zip(cs, e)), ga.mv(0))
        usv = w.val(us, ga)
        for cmp in (False, True):
            Gs = ga.make_grad(seq, cmp)
            q = us * us
            w.judge('seq', ga, ['sq', cmp, usv], Gs * q if not cmp else q * Gs, ref.smul(2, usv), extra='make_grad(sequence) cmpflg=%s' % cmp)
            F = us * B if not cmp else B * us
            want = {}
            for i in range(n):
                d = C.gp({1 << i: ref.Fraction(1)}, bv) if not cmp else C.gp(bv, {1 << i: ref.Fraction(1)})
                want = ref.add(want, C.gp(RB[1 << i], d) if not cmp else C.gp(d, RB[1 << i]))
            w.judge('seq', ga, ['lin', cmp, bv], Gs * F if not cmp else F * Gs, want, extra='make_grad(sequence) cmpflg=%s' % cmp)
        # the coordinate vector
        from galgebra.ga import Ga
        m = rng.choice([1, 2, 3])
        xs = tuple(Symbol(s, real=True) for s in 'xyz'[:m])
        g = [[S(2) if i == j else S(0) for j in range(m)] for i in range(m)]
        if m > 1 and rng.random() < .5:
            g[0][1] = g[1][0] = S(rng.choice([1, -1])) / rng.choice([1, 2])
        gc = Ga(gen.basis_string(rng, m), g=g, coords=xs)
        w.register(gc, g)
        xv = gc.mv(gc.coord_vec)
        xvv = w.val(xv, gc)
        for H in (gc.make_grad(xv), gc.grad, gc.make_grad(list(xs))):
            w.judge('coord', gc, ['x^2', xvv], H * (xv * xv), ref.smul(2, xvv), extra='gradient with respect to the coordinate vector')
