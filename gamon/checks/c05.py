"""C05 equality and representation independence."""
from sympy import S, Symbol, cos, expand, factor, sin

from .. import gen, monitor, num, ref, workload

PROP = 'C05'
RULE = ('Random algebras (mostly non-orthogonal for the representation families). rep: base_rep/blade_rep round trips, read back '
        'by expanding the products of basis vectors in the reference. ops: every operation on operands in all combinations of '
        'representation and algebraic arrangement must denote one and the same multivector (and the reference product for hooked '
        'operators). eq: pairs known equal by construction (rearranged coefficients, trigonometric identities, other '
        'representation) and pairs known different, through == and !=, and against plain expressions. distinct_nontrivial counts '
        'distinct (operation, dimension, arrangement, value).')
ASSUMPTIONS = ['equalities are tested for polynomial, rational and elementary trigonometric coefficient identities that sympy.simplify '
               'is expected to decide']
REQUIRED = ['base_rep', 'blade_rep', 'ops-.*', 'eq-true', 'eq-false', 'eq-scalar', '__mul__', '__xor__', '__add__']
OPS = monitor.PRODUCT_OPS + monitor.OUTER_INNER_OPS + ['__add__', '__sub__', '__neg__', '__lshift__', '__rshift__', '__pow__'] + monitor.GRADE_OPS
NON = ('nonortho', 'nonsing', 'null', 'symnon', 'default')
ALL = ('euclid', 'ortho', 'degen', 'symortho') + NON


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)}
            for f, m in (('rep', 200), ('ops', 200), ('eq', 250)) for i in range(m * k)]


IDENT = ['sin(a)**2+cos(a)**2', '(a+b)**2-a**2-2*a*b-b**2+1', '(a**2-1)/(a-1)-a', 'cosh(b)**2-sinh(b)**2', '2/2', 'a/a',
         '(a+b)/(2*a+2*b)*2']


def arrange(rng, ga, A):
    """The same multivector, differently written. Returns (mv, name)."""
    how = rng.choice(['as-is', 'base', 'base', 'unexp', 'cancel', 'expand', 'rebuilt', 'base-unexp'])
    if how == 'base':
        return A.base_rep(), how
    if how == 'unexp':
        p = gen.parse(rng.choice(['a+1', 'b+c', '3']))
        return ga.mv(p * (A.obj / p)) if rng.random() < .3 else ga.mv((p * A.obj) - ((p - 1) * A.obj)), how
    if how == 'base-unexp':
        B = A.base_rep()
        p = gen.parse('a+1')
        # base representation is closed under scalar multiples and sums of itself
        return (B + B) - B, how
    if how == 'cancel':
        B = gen.mk(ga, gen.mvspec(rng, ga.n, ('int', 'sym')))
        return (A + B) - B, how
    if how == 'expand':
        return A.expand(), how
    if how == 'rebuilt':
        obj = S.Zero
        for b, c in reversed(list(zip(ga.blades.flat, A.blade_coefs()))):
            obj = c * b + obj
        return ga.mv(obj), how
    return A, how


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    a = gen.algebra(rng, NON if fam == 'rep' or rng.random() < .6 else ALL, nmax=4)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, OPS if fam == 'ops' else [], a)
    ck = ('int', 'rat', 'sym', 'poly') if n <= 3 else ('int', 'rat')
    if fam == 'rep':
        for _ in range(3):
            A = gen.mk(ga, gen.mvspec(rng, n, ck))
            v = w.val(A, ga)
            B = A.base_rep()
            w.judge('base_rep', ga, [v], B, v)
            w.judge('base_rep', ga, [v, 'twice'], B.base_rep(), v)
            w.judge('blade_rep', ga, [v], B.blade_rep(), v)
            w.judge('blade_rep', ga, [v, 'id'], A.blade_rep(), v)
            w.judge('rep-operand', ga, [v], A, v)
            C = B.blade_rep()
            rec.check(C == A, 'rep-eq', str(v), 'rep-eq', 'blade_rep(base_rep(A)) != A for %s' % A.obj)
            # base representation of a product of vectors is readable too
            vs = [gen.mk(ga, gen.mvspec(rng, n, ('int',), style='vector')) for _ in range(rng.randint(1, 3))]
            P = vs[0]
            for x in vs[1:]:
                P = P * x
            w.judge('base_rep', ga, [w.val(P, ga)], P.base_rep(), w.val(P, ga))
            obj = ga.blade_to_base_rep(A.obj)
            back = ga.base_to_blade_rep(obj)
            w.judge('ga.rep', ga, [v], ga.mv(back), v)
    elif fam == 'ops':
        A = gen.mk(ga, gen.mvspec(rng, n, ck))
        B = gen.mk(ga, gen.mvspec(rng, n, ck))
        V = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector'))
        ops = {
            '*': (A, B, lambda x, y: x * y), '^': (A, B, lambda x, y: x ^ y), '|': (A, B, lambda x, y: x | y),
            '<': (A, B, lambda x, y: x < y), '>': (A, B, lambda x, y: x > y), '+': (A, B, lambda x, y: x + y),
            '-': (A, B, lambda x, y: x - y), '<<': (A, B, lambda x, y: x << y), '>>': (A, B, lambda x, y: x >> y),
            'rev': (A, A, lambda x, y: x.rev()), 'ginv': (A, A, lambda x, y: x.g_invol()), 'ccon': (A, A, lambda x, y: x.ccon()),
            'even': (A, A, lambda x, y: x.even()), 'neg': (A, A, lambda x, y: -x), 'smul': (A, A, lambda x, y: 2 * x),
            'mulr': (A, A, lambda x, y: x * 3), 'pow': (V, V, lambda x, y: x ** 3), 'sp': (A, B, lambda x, y: ga.mv(x.sp(y))),
            'sprev': (A, B, lambda x, y: ga.mv(x.sp(y, 'rev'))), 'qform': (A, A, lambda x, y: ga.mv(x.qform())),
            'xs': (A, A, lambda x, y: x ^ 2), 'sx': (A, A, lambda x, y: 2 ^ x), 'ors': (A, A, lambda x, y: x | 2),
            'lts': (A, A, lambda x, y: x < 2), 'gts': (A, A, lambda x, y: x > 2), 'adds': (A, A, lambda x, y: x + 2),
            'radds': (A, A, lambda x, y: 2 - x), 'div': (A, A, lambda x, y: x / 2),
            'exp': (V, V, lambda x, y: x.exp('+')), 'simp': (A, A, lambda x, y: x.simplify()),
            'expand': (A, A, lambda x, y: x.expand()), 'grade1': (A, A, lambda x, y: x.grade(1)),
            'proj': (A, A, lambda x, y: x.proj([ga.mv(ga.blades.flat[-1])])),
            'com': (A, B, lambda x, y: ga.com(x, y)), 'scalar': (A, A, lambda x, y: ga.mv(x.scalar())),
            'subs': (A, A, lambda x, y: x.subs(Symbol('a', real=True), 2)),
        }
        sing = ref.det([[w.cl(ga).g[i][j] for j in range(n)] for i in range(n)]) == 0 if n else False
        if not sing and n <= 3:
            ops['dual'] = (A, A, lambda x, y: x.dual())
            v = w.val(V, ga)
            if ref.scalar(w.cl(ga).gp(v, v)) != 0:
                ops['inv'] = (V, V, lambda x, y: x.inv())
                ops['project'] = (A, V, lambda x, y: x.project_in_blade(y))
                ops['reflect'] = (A, V, lambda x, y: x.reflect_in_blade(y))
        with w.installed():
            for name in rng.sample(sorted(ops), 9):
                X, Y, f = ops[name]
                try:
                    want = w.val(f(X, Y), ga)
                except (num.NonFinite, num.Malformed):
                    rec.note('base value not evaluable')
                    continue
                for _ in range(2):
                    X1, h1 = arrange(rng, ga, X)
                    Y1, h2 = arrange(rng, ga, Y)
                    got = f(X1, Y1)
                    w.judge('ops-' + name, ga, [w.val(X, ga), w.val(Y, ga)], got, want, extra='%s/%s' % (h1, h2))
    else:
        for _ in range(3):
            A = gen.mk(ga, gen.mvspec(rng, n, ck))
            v = w.val(A, ga)
            B, how = arrange(rng, ga, A)
            if rng.random() < .5 and B.is_blade_rep:
                i = gen.parse(rng.choice(IDENT))
                B = ga.mv(B.obj * i)
                how += '*1'
                # the identities used above are 1 in value or are skipped
                if not ref.equal(w.val(B, ga), v):
                    B, how = A, 'as-is'
            key = '%s|%s|%s' % (n, how, sorted((k, str(x)) for k, x in v.items()))
            rec.check((A == B) is True or bool(A == B), 'eq-true', key, 'eq-true', lambda: '%s == %s is false (%s)' % (A.obj, B.obj, how))
            rec.check(bool(B == A), 'eq-true', key + 'r', 'eq-true', lambda: '%s == %s is false (%s)' % (B.obj, A.obj, how))
            rec.check(not (A != B), 'eq-true', key + 'n', 'ne-false', lambda: '%s != %s is true (%s)' % (A.obj, B.obj, how))
            # a genuine difference in one blade
            m = rng.randrange(1 << n)
            D = gen.mk(ga, [[m, rng.choice(['1', '-1', 'a', '1/2', 'a-b', '(a+1)*b'])]])
            E = B + D
            if rng.random() < .5:
                E, h = arrange(rng, ga, E)
            if ref.equal(w.val(D, ga), {}):
                continue
            rec.check(not bool(A == E), 'eq-false', key + str(m), 'eq-false', lambda: '%s == %s is true' % (A.obj, E.obj))
            rec.check(bool(A != E), 'eq-false', key + str(m), 'ne-true', lambda: '%s != %s is false' % (A.obj, E.obj))
            # against plain expressions: true only when it is that scalar
            s = gen.parse(gen.scalar_spec(rng))
            for M in (A, ga.mv(s), ga.mv(s) + D, ga.mv(2), ga.mv(0), ga.mv(s).base_rep()):
                for x in (s, 2, 0, gen.parse('a')):
                    same = ref.equal(w.val(M, ga), ref.clean({0: w.env.num(x)}))
                    r = bool(M == x)
                    rec.check(same or not r, 'eq-scalar', (n, str(M.obj), str(x)), 'eq-scalar',
                              lambda: '%s == %s is true' % (M.obj, x))
            for k in (0, 2, -3):
                rec.check(bool(ga.mv(k) == k) and not (ga.mv(k) != k), 'eq-number', (n, k), 'eq-number', 'mv(%d) == %d is false' % (k, k))
