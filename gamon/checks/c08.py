"""C08 quadratic form, norm and magnitude."""
from .. import gen, monitor, num, ref, workload

PROP = 'C08'
RULE = ('qform/norm2/norm/abs/mag2/mag and their module functions on random multivectors (numeric, symbolic, single blades, base '
        'representation) of random algebras, for every hint, compared with the reference quadratic form at two random points. A hint is '
        'judged where it names the true sign at the point, and everywhere when the sign is determined (numeric coefficients and metric, '
        'Euclidean metric, one blade, definite metrics). distinct_nontrivial counts distinct (function, hint, dimension, value).')
ASSUMPTIONS = ['a hint that names the wrong sign of an undetermined quantity has no defined result']
REQUIRED = ['qform', 'norm2', 'norm', 'norm-hint', 'norm2-hint', 'mag2', 'mag', 'abs', 'fn-.*', 'determined']
CASE_TIMEOUT = {'quick': 40, 'thorough': 240}
KINDS = ('euclid', 'euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'negdef')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('num', 120), ('sym', 150), ('det', 120)) for i in range(m * k)]


def run(spec, rec):
    from galgebra import mv as M
    rng = gen.rng_for(spec)
    fam = spec['family']
    kinds = [k for k in KINDS if fam == 'sym' or not k.startswith('sym')]
    if fam == 'det':
        kinds = ['euclid', 'ortho', 'negdef', 'nonsing']
    kind = rng.choice(kinds)
    a = gen.algebra(rng, ('euclid' if kind == 'negdef' else kind,), nmax=5 if fam == 'num' else 4, big=.06 if fam == 'num' else 0)
    if kind == 'negdef':
        a['g'] = [rng.choice(['-1', '-2']) for _ in a['g']]
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, [], a)
    w2 = monitor.World(rec, num.Env(spec['seed'] + 'x'))
    w2.metrics = w.metrics
    for _ in range(2):
        determined = False
        if fam == 'num':
            A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat'), style=rng.choice(['sparse', 'vector', 'blade', 'scalar+']) if n > 4 else None))
            determined = True
        elif fam == 'sym':
            ck = ('sym', 'poly', 'func') if n < 2 else ('sym', 'poly') if n < 4 else ('sym',)
            A = gen.mk(ga, gen.mvspec(rng, n, ck, style=rng.choice([None, 'vector', 'sparse', 'blade', 'scalar'])))
            if rng.random() < .2:
                A = gen.parse('a+b') * A
            determined = kind == 'euclid'
        else:
            if kind in ('euclid', 'negdef') and rng.random() < .6:
                style = 'vector'
                A = gen.mk(ga, [[1 << i, 'abcdk'[i]] for i in range(n)])
            else:
                bl = rng.randrange(1 << n)
                A = gen.mk(ga, [[bl, gen.coef(rng, 'sym')]])
            determined = True
        if rng.random() < .15:
            A = A.base_rep()
        for W in (w, w2):
            C = W.cl(ga)
            v = W.val(A, ga)
            gr = lambda r: ref.scalar(C.gp(ref.rev(ref.grade_part(v, r)), ref.grade_part(v, r)))
            q = ref.scalar(C.gp(ref.rev(v), v))
            absq = abs(q) if ref.is_exact(q) else abs(ref.to_mp(q))
            root = ref.mpmath.sqrt(ref.to_mp(absq))
            m2 = 0
            for r in range(n + 1):
                m2 = ref.nadd(m2, abs(gr(r)))
            mroot = ref.mpmath.sqrt(ref.to_mp(m2))
            s = lambda x: {0: x}

            def j(name, got, want, extra=''):
                W.judge(name, ga, [v, extra], {0: W.env.num(got)}, s(want), extra='%s obj %s' % (extra, str(A.obj)[:200]))
            j('qform', A.qform(), q)
            j('fn-qform', M.qform(A), q)
            j('norm2', A.norm2(), absq)
            j('norm', A.norm(), root)
            j('abs', abs(A), root)
            j('fn-norm', M.norm(A), root)
            j('fn-norm2', M.norm2(A), absq)
            j('mag2', A.mag2(), m2)
            j('mag', A.mag(), mroot)
            j('fn-mag', M.mag(A), mroot)
            j('fn-mag2', M.mag2(A), m2)
            hints = ['+', '-', '0'] if determined else (['+'] if ref.to_mp(q) >= 0 else ['-'])
            for h in hints:
                if determined:
                    rec.event('determined', '%s|%s' % (n, h))
                j('norm2-hint', A.norm2(h), absq, h)
                j('norm-hint', A.norm(h), root, h)
                j('fn-norm-hint', M.norm(A, h), root, h)
                j('fn-norm2-hint', M.norm2(A, h), absq, h)
            nn = A.norm()
            val = W.env.num(nn)
            rec.check(not isinstance(val, ref.mpmath.mpc) and val >= 0, 'norm-nonneg', str(v), 'norm-negative', lambda: 'norm of %s is %s' % (A.obj, nn))
