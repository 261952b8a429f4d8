"""C07 exponentials and rotations."""
from sympy import S, pi

from .. import gen, monitor, num, ref, workload

PROP = 'C07'
RULE = ('exp of scalars, vectors, bivector blades, trivectors, null elements and sums with scalar square, in random nonsingular, '
        'degenerate and non-orthogonal algebras, numeric and symbolic coefficients each with both hints, compared '
        'with the scaled power series in the reference. rotate_multivector/rot against the double series product and grade/norm/'
        'product preservation; non-scalar squares must be rejected. distinct_nontrivial counts distinct (operation, dimension, value, hint).')
ASSUMPTIONS = ['transcendental values are compared to 1e-20 relative', 'the value does not depend on the hint (cosh(sqrt(-x)) = cos(sqrt(x))), '
               'so every hint is judged against the same series']
REQUIRED = ['exp-num', 'exp-sym', 'exp-null', 'exp-scalar', 'rotate', 'rotate-grade', 'rotate-prod', 'reject', 'fn-exp']
KINDS = ('euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)}
            for f, m in (('num', 260), ('sym', 160), ('rot', 120), ('reject', 60)) for i in range(m * k)]


def issc(C, v):
    s = C.gp(v, v)
    return all(k == 0 or ref.close(x, 0, max([abs(ref.to_mp(y)) for y in s.values()])) for k, x in s.items())


def run(spec, rec):
    from galgebra import mv as M
    rng = gen.rng_for(spec)
    fam = spec['family']
    kinds = KINDS + ('symortho', 'symortho', 'symnon') if fam == 'sym' else KINDS
    a = gen.algebra(rng, kinds, nmax=4 if fam != 'rot' else 3, nmin=1 if fam != 'rot' else 2, big=.08 if fam == 'num' else 0)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, [], a)
    C = w.cl(ga)
    vec = lambda ck: gen.mk(ga, gen.mvspec(rng, n, ck, style='vector'))

    def operand(ck):
        how = rng.choice(['vector', 'biv', 'blade', 'wedge', 'scalar', 'anti', 'term', 'zero'] if fam == 'num' else ['vector', 'biv', 'wedge', 'term', 'term'])
        if how == 'vector':
            A = vec(ck)
        elif how == 'biv':
            A = vec(ck) ^ vec(('int',))
        elif how == 'blade':
            A = gen.mk(ga, gen.mvspec(rng, n, ck, style='blade'))
        elif how == 'term':
            A = gen.mk(ga, [[rng.randrange(1, 1 << n), gen.coef(rng, rng.choice(ck))]])
        elif how == 'wedge':
            A = vec(('int',)) ^ vec(('int',)) ^ vec(ck)
        elif how == 'scalar':
            A = ga.mv(gen.parse(gen.coef(rng, rng.choice(ck))))
        elif how == 'zero':
            A = ga.mv(0)
        else:
            A = gen.mk(ga, gen.mvspec(rng, n, ck, style='grade'))
        return A

    if fam == 'num':
        for _ in range(3):
            A = operand(('int', 'rat'))
            v = w.val(A, ga)
            if not issc(C, v):
                continue
            q = ref.scalar(C.gp(v, v))
            want = C.exp(v)
            if rng.random() < .15:
                A = A.base_rep()
            for hint in ('-', '+', None):
                R = A.exp() if hint is None else A.exp(hint)
                kind = 'exp-scalar' if set(v) <= {0} else ('exp-null' if q == 0 else 'exp-num')
                w.judge(kind, ga, [v, hint], R, want, extra='hint %s' % hint)
            w.judge('fn-exp', ga, [v], M.exp(A), want)
            w.judge('fn-exp', ga, [v], M.exp(A, '+'), want)
    elif fam == 'sym':
        for _ in range(2):
            A = operand(('sym', 'int', 'poly'))
            v = w.val(A, ga)
            w2 = monitor.World(rec, num.Env(spec['seed'] + 'x', wide=True))
            w2.metrics = w.metrics
            if not issc(C, v) or not issc(w2.cl(ga), w2.val(A, ga)):
                continue
            q = ref.to_mp(ref.scalar(C.gp(v, v)))
            q2 = ref.to_mp(ref.scalar(w2.cl(ga).gp(w2.val(A, ga), w2.val(A, ga))))
            want = C.exp(v)
            if ref.close(q, 0) and ref.close(q2, 0):
                hints = ['+', '-']
            elif ref.close(q, 0):
                continue
            else:
                hints = ['+', '-']
            for hint in hints:
                R = A.exp(hint)
                w.judge('exp-sym', ga, [v, hint], R, want, extra='hint %s of %s' % (hint, A.obj))
    elif fam == 'rot':
        u, v_ = vec(('int',)), vec(('int',))
        B = u ^ v_
        # keep |B| moderate: hyperbolic exponentials lose digits to cancellation
        big = max([abs(ref.to_mp(x)) for x in w.val(B, ga).values()] + [1])
        B = B * (S(1) / int(2 * big + 1))
        if rng.random() < .3:
            B = B * rng.choice([S(1) / 2, pi / 3, S(2) / 3])
        elif rng.random() < .4:
            B = gen.parse(rng.choice(['a', 'a/2', '-2*a'])) * B
        b = w.val(B, ga)
        q = ref.to_mp(ref.scalar(C.gp(b, b)))
        hint = '+' if q > 0 else '-'
        A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat')))
        D = gen.mk(ga, gen.mvspec(rng, n, ('int',), style='vector'))
        va, vd = w.val(A, ga), w.val(D, ga)
        half = ref.Fraction(1, 2)
        Rm, Rp = C.exp(ref.smul(-half, b)), C.exp(ref.smul(half, b))
        rot = lambda x: C.gp(C.gp(Rm, x), Rp)
        for hint_ in ('+', '-'):
            R = A.rotate_multivector(B, hint_)
            w.judge('rotate', ga, [va, b], R, rot(va))
        w.judge('rotate', ga, [va, b, 'rot'], M.rot(B, A, hint), rot(va))
        RD = D.rotate_multivector(B, hint)
        rv = w.val(RD, ga)
        w.judge('rotate-grade', ga, [vd, b], rv, ref.grade_part(rv, 1))
        w.judge('rotate-norm', ga, [vd, b], ref.grade_part(C.gp(rv, rv), 0), ref.grade_part(C.gp(vd, vd), 0))
        ra = w.val(A.rotate_multivector(B, hint), ga)
        AD = A * D
        w.judge('rotate-prod', ga, [va, vd, b], AD.rotate_multivector(B, hint), C.gp(ra, rv))
    else:
        for _ in range(4):
            A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style=rng.choice(['dense', 'scalar+', 'even', 'sparse'])))
            v = w.val(A, ga)
            w2 = monitor.World(rec, num.Env(spec['seed'] + 'x', wide=True))
            w2.metrics = w.metrics
            if issc(C, v) or issc(w2.cl(ga), w2.val(A, ga)):
                continue
            for hint in ('-', '+'):
                try:
                    R = A.exp(hint)
                except ValueError:
                    ok = True
                else:
                    ok = False
                rec.check(ok, 'reject', (n, str(sorted(v.items()))), 'exp-accepted', lambda: 'exp of %s (square not scalar) returned %s' % (A.obj, R.obj))
