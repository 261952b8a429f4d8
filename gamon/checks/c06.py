"""C06 inverses."""
from sympy import Float, S

from .. import gen, monitor, num, ref, workload

PROP = 'C06'
RULE = ('Random algebras of dimension 0-5 (5 and 6 with many blades); general, sparse, versor, blade, idempotent-like and '
        'deliberately singular multivectors, numeric and symbolic. Every inverse returned is multiplied by the operand on both sides '
        'in the reference algebra; singularity is decided by the rank of the reference left-multiplication matrix. Exact input must '
        'give float-free output. distinct_nontrivial counts distinct (method, dimension, value).')
ASSUMPTIONS = ['symbolic inverses are multiplied out at one random rational point per case',
               'rejection of singular operands is judged on exact numeric coefficients and on symbolic multiples of them']
REQUIRED = ['shirokov', 'hitzer', 'inv-scalar', 'inv-versor', 'inv-sqscalar', 'rdiv', 'negpow', 'reject-shirokov', 'reject-hitzer']
KINDS = ('euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon')
CASE_TIMEOUT = {'quick': 60, 'thorough': 240}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 10
    out = [{'family': f, 'seed': '%d.%d' % (seed, i)}
           for f, m in (('general', 160), ('singular', 120), ('inv', 260), ('sym', 50)) for i in range(m * k)]
    for f, m in (('dim5', 14), ('dim6', 8)):
        out += [{'family': f, 'seed': '%d.%d' % (seed, i)} for i in range(m * (1 if tier == 'quick' else 5))]
    return out


def floats(M):
    return bool(M.obj.atoms(Float))


def run(spec, rec):
    from galgebra import mv as M
    rng = gen.rng_for(spec)
    fam = spec['family']
    kinds = KINDS if fam != 'sym' else ('euclid', 'ortho', 'nonsing', 'symortho')
    nmax = {'sym': 3, 'inv': 4}.get(fam, 5)
    if fam == 'dim6':
        a = {'kind': 'ortho', 'n': 6, 'basis': 'e*1|2|3|4|5|6', 'g': [rng.choice(['1', '-1', '2']) for _ in range(6)]}
    elif fam == 'dim5':
        a = {'kind': 'ortho', 'n': 5, 'basis': 'e*1|2|3|4|5', 'g': [rng.choice(['1', '-1', '2']) for _ in range(5)]}
    else:
        a = gen.algebra(rng, kinds, nmax=nmax)
        if a['n'] == 5 and rng.random() < .5:
            a = gen.algebra(rng, ('euclid', 'ortho'), nmax=3)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, [], a)
    C = w.cl(ga)

    def judge(kind, A, R, exact=True):
        v = w.val(A, ga)
        try:
            r = w.val(R, ga)
        except num.NonFinite:
            rec.note('nonfinite result')
            return False
        key = '%s|%s' % (n, sorted((k, str(x)) for k, x in v.items()))
        rec.check(ref.equal(C.gp(v, r), {0: 1}) and ref.equal(C.gp(r, v), {0: 1}), kind, key, kind,
                  lambda: '%s of %s is %s: not a two-sided inverse' % (kind, monitor.show([v]), monitor.show([r])))
        if exact:
            rec.check(not floats(R), kind + '-exact', key, kind + '-exact', lambda: '%s of exact %s has floats: %s' % (kind, A.obj, R.obj))
        return True

    def attempt(kind, f, A, singular):
        """Methods that must succeed exactly on invertible operands."""
        v = w.val(A, ga)
        key = '%s|%s' % (n, sorted((k, str(x)) for k, x in v.items()))
        try:
            R = f(A)
        except ValueError as e:
            rec.check(singular, 'reject-' + kind, key, kind + '-refused', '%s refused the invertible %s: %s' % (kind, A.obj, e))
            return
        if singular:
            rec.check(False, 'reject-' + kind, key, kind + '-accepted', lambda: '%s of singular %s returned %s' % (kind, A.obj, R.obj))
        else:
            ok = judge(kind, A, R)
            if not ok:
                rec.violate(kind + '-nonfinite', '%s of the invertible %s is not finite: %s' % (kind, A.obj, R.obj))

    if fam in ('dim5', 'dim6'):
        # enough blades that the inverse needs the full degree of the characteristic polynomial
        blades = rng.sample(list(ga.mv_blades.flat), rng.randint(8, 20) if n == 5 else rng.randint(5, 9))
        A = M.Mv(sum(rng.choice([1, -1]) * rng.randint(1, 5) * b.obj if hasattr(b, 'obj') else rng.choice([1, -2, 3]) * b for b in blades), ga=ga)
        v = w.val(A, ga)
        inv = C.reverse_trick_inverse(v) if n == 5 else 'unknown'
        if n == 5:
            attempt('shirokov', lambda x: x.shirokov_inverse(), A, inv is None)
            if rng.random() < .5:
                attempt('hitzer', lambda x: x.hitzer_inverse(), A, inv is None)
            return
        try:
            R = A.shirokov_inverse()
        except ValueError:
            rec.note('dim 6 refused')
            return
        judge('shirokov', A, R)
        return
    if fam in ('general', 'singular'):
        ck = ('int', 'rat')
        if fam == 'singular':
            A = gen.mk(ga, gen.mvspec(rng, n, ('int',), style=rng.choice(['vector', 'sparse', 'blade', 'scalar+', 'even'])))
            how = rng.choice(['zero', 'idem', 'null', 'zd', 'sub'])
            v = w.val(A, ga)
            if how == 'zero':
                A = A - A
            elif how == 'idem' and n:
                i = rng.randrange(n)
                g = ga.mv()[i] if isinstance(ga.mv(), tuple) else ga.mv()
                q = ref.Fraction(C.g[i][i]) if ref.is_exact(C.g[i][i]) else 0
                A = A * (1 + g) if q == 1 else A * g
            elif how == 'sub' and n >= 2:
                i, j = rng.sample(range(n), 2)
                A = (ga.mv()[i] + ga.mv()[j]) * A
            elif how == 'zd':
                B = gen.mk(ga, gen.mvspec(rng, n, ('int',)))
                A = (A - A.rev()) * B
            if rng.random() < .25:
                A = gen.parse('a') * A
        else:
            A = gen.mk(ga, gen.mvspec(rng, n, ck))
        if rng.random() < .2:
            A = A.base_rep()
        if a['kind'].startswith('sym') and n > 2:
            return
        v = w.val(A, ga)
        inv = C.reverse_trick_inverse(v)
        singular = inv is None
        if n <= 4 or len(v) <= 6:
            attempt('shirokov', rng.choice([lambda x: x.shirokov_inverse(), M.shirokov_inverse]), A, singular)
        attempt('hitzer', rng.choice([lambda x: x.hitzer_inverse(), M.hitzer_inverse]), A, singular)
        for kind, f in (('inv', lambda x: x.inv()), ('fn-inv', M.inv), ('rdiv', lambda x: 1 / x), ('negpow', lambda x: x ** -1)):
            try:
                R = f(A)
            except (TypeError, ValueError, ZeroDivisionError):
                rec.note('inv refused')
                continue
            judge(kind, A, R)
            if kind == 'negpow' and rng.random() < .4 and not singular:
                k = rng.choice([2, 3])
                try:
                    R = A ** -k
                    r = w.val(R, ga)
                except (TypeError, ValueError, num.NonFinite):
                    continue
                rec.check(ref.equal(C.gp(C.power(v, k), r), {0: 1}), 'negpow', (n, k, str(v)), 'negpow', 'A**-%d of %s' % (k, A.obj))
    elif fam == 'inv':
        how = rng.choice(['scalar', 'versor', 'versor', 'sqscalar', 'blade'])
        ck = ('int', 'rat', 'sym') if n <= 2 else ('int', 'rat')
        if how == 'scalar':
            s = gen.parse(rng.choice(['2', '-1/3', 'a', 'a+1', '(a+b)**2', 'sqrt(2)']))
            A = ga.mv(s)
        elif how in ('versor', 'blade'):
            A = ga.mv(gen.parse(rng.choice(['1', '2', '-1/2'])))
            m = rng.randint(1, 3)
            for _ in range(m):
                for _ in range(20):
                    V = gen.mk(ga, gen.mvspec(rng, n, ck, style='vector'))
                    q = ref.scalar(C.gp(w.val(V, ga), w.val(V, ga)))
                    if not ref.close(q, 0):
                        A = A * V
                        break
        else:
            # vectors, bivector blades, 1-grade mixtures such as e1 + e1^e2 (squares decided in the reference)
            A = gen.mk(ga, gen.mvspec(rng, n, ck, style=rng.choice(['vector', 'blade', 'sparse', 'grade'])))
        if rng.random() < .2:
            A = A.base_rep()
        if rng.random() < .3:
            A = ga.mv(gen.parse(rng.choice(['a+1', 'a+1', 'a/(b**2+1)', '(a**2+1)/(b**2+2)', '1/(1+a**2)'])) * A.blade_rep().obj)
        v = w.val(A, ga)
        w2 = monitor.World(rec, num.Env(spec['seed'] + 'x', wide=True))
        w2.metrics = w.metrics
        C2, v2 = w2.cl(ga), w2.val(A, ga)

        def is_sc(x, y):
            return all(k == 0 or ref.close(c, 0) for z in (x, y) for k, c in z.items()) and not ref.close(ref.scalar(x), 0)
        sq = C.gp(v, v)
        rr = C.gp(v, ref.rev(v))
        must = is_sc(sq, C2.gp(v2, v2)) or is_sc(rr, C2.gp(v2, ref.rev(v2)))
        kind = 'inv-' + how
        if must:
            try:
                R = A.inv()
            except TypeError as e:
                rec.check(False, kind, str(v), 'inv-refused', 'inv refused %s (A*A or A*rev(A) is a nonzero scalar): %s' % (A.obj, e))
                return
            if not judge(kind, A, R):
                rec.violate('inv-nonfinite', 'inv of %s is not finite: %s' % (A.obj, R.obj))
            judge('rdiv', A, 1 / A)
            judge('negpow', A, A ** -1)
            s = gen.as_py_scalar(rng, rng.choice(['2', '-3', 'a']))
            r = w.val(s / A, ga)
            w.judge('rdiv', ga, [v, str(s)], r, ref.smul(w.env.num(s), C.reverse_trick_inverse(v)))
        else:
            try:
                R = A.inv()
            except (TypeError, ValueError):
                return
            judge('inv-other', A, R)
    else:
        A = gen.mk(ga, gen.mvspec(rng, n, ('sym', 'int'), style=rng.choice(['sparse', 'vector', 'scalar+', 'even'])))
        v = w.val(A, ga)
        w2 = monitor.World(rec, num.Env(spec['seed'] + 'x', wide=True))
        w2.metrics = w.metrics
        if C.reverse_trick_inverse(v) is None or w2.cl(ga).reverse_trick_inverse(w2.val(A, ga)) is None:
            return
        attempt('shirokov', lambda x: x.shirokov_inverse(), A, False)
        attempt('hitzer', lambda x: x.hitzer_inverse(), A, False)
