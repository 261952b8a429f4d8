"""C03 linear structure, scalars, powers, division, commutators."""
from sympy import S

from .. import gen, monitor, num, ref, workload

PROP = 'C03'
RULE = ('Random algebras and programs of + - unary - << >> ** / with multivector, int, rational and symbolic scalar operands on '
        'either side (and Ga.com, Mv.Mul); each hooked call compared with the reference. distinct_nontrivial counts distinct '
        '(operator, dimension, operand values).')
ASSUMPTIONS = ['symbolic coefficients are compared at one random rational point per case',
               'division by a multivector is judged only when the divisor is invertible']
REQUIRED = ['__add__', '__radd__', '__sub__', '__rsub__', '__neg__', '__rshift__', '__lshift__', '__pow__', '__truediv__', '__rlshift__', '__rrshift__', 'pow-reject', 'com', 'div-any', 'div-refused']
OPS = monitor.LINEAR_OPS + ['__mul__', '__rmul__']
KINDS = ('euclid', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for f, m in (('prog', 300), ('pow', 100), ('div', 100), ('com', 80)):
        for i in range(m * k):
            out.append({'family': f, 'seed': '%d.%d' % (seed, i)})
    return out


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    a = gen.algebra(rng, KINDS, nmax=5, big=.08 if fam != 'pow' else 0)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, OPS, a)
    C = w.cl(ga)
    ck = ('int', 'rat', 'sym', 'poly', 'func') if n <= 3 else ('int', 'rat', 'sym')
    mk = lambda **k: gen.mk(ga, gen.mvspec(rng, n, ck, **k))
    if fam == 'prog':
        regs = [mk() for _ in range(5)]
        with w.installed():
            workload.run_program(rng, ga, regs, ['+', '-', '+', '-', '<<', '>>', '*'], 10, maxlen=500, scal_prob=.3,
                                 unary=[lambda A: -A])
    elif fam == 'pow':
        with w.installed():
            for _ in range(3):
                A = mk(style=rng.choice(['vector', 'blade', 'sparse', 'grade', 'even']))
                A ** rng.choice([0, 1, 2, 2, 3, 4])
                bad = rng.choice([S.Half, .5, gen.parse('a'), gen.parse('1/3')])
                try:
                    R = A ** bad
                except (ValueError, TypeError):
                    R = None
                rec.check(R is None, 'pow-reject', (n, str(bad), str(A.obj)), 'pow-accepted', lambda: '(%s)**%s returned %s' % (A.obj, bad, R))
    elif fam == 'div':
        with w.installed():
            for _ in range(3):
                A = mk()
                s = gen.as_py_scalar(rng, rng.choice(['2', '-3', '1/2', 'a', 'a+3', '5', '-1/7']))
                A / s
                B = mk(style=rng.choice(['vector', 'blade', 'scalar']))
                vb = w.val(B, ga)
                q = C.gp(vb, vb)
                if set(q) == {0}:
                    A / B
                    R = gen.as_py_scalar(rng, rng.choice(['1', '2', 'a'])) / B
                    inv = C.reverse_trick_inverse(vb)
                if set(vb) == {0}:
                    A / B
                # any divisor: the quotient times the divisor is the dividend, or the division is refused
                B = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat'), style=rng.choice([None, 'grade', 'even', 'odd', 'sparse'])))
                vb = w.val(B, ga)
                if n > 5 or not vb or a['kind'].startswith('sym') and n > 2:
                    continue
                if C.reverse_trick_inverse(vb) is None:
                    rec.note('singular-divisor')
                    continue
                va = w.val(A, ga)
                try:
                    Q = A / B
                except (TypeError, ValueError):
                    rec.event('div-refused', str(sorted(vb.items(), key=str)))
                    continue
                try:
                    q = w.val(Q, ga)
                except num.NonFinite:
                    rec.note('div-nonfinite')
                    continue
                w.judge('div-any', ga, [va, vb], C.gp(q, vb), va, extra='A=%s B=%s (A/B)*B' % (A.obj, B.obj))
    else:
        from galgebra.ga import Ga
        for _ in range(3):
            A, B = mk(), mk()
            va, vb = w.val(A, ga), w.val(B, ga)
            want = ref.smul(ref.Fraction(1, 2), ref.sub(C.gp(va, vb), C.gp(vb, va)))
            w.judge('com', ga, [va, vb], w.val(Ga.com(A, B), ga), want)
            w.judge('com', ga, [va, vb], w.val(ga.com(A, B), ga), want)
