"""C02 outer, inner, contraction and scalar products."""
import itertools

from .. import gen, monitor, num, ref, workload

PROP = 'C02'
RULE = ('Random algebras and programs using ^ | < > with multivector and scalar operands on either side, full basis-blade '
        'tables of all products through the operators and through the Ga product functions (wedge, hestenes_dot, '
        'left_contract, right_contract, scalar_product, dot in each dot_mode, Mul) and Mv.sp; each hooked call is compared '
        'with the grade-projected reference product. distinct_nontrivial counts distinct (operator, dimension, operand values).')
ASSUMPTIONS = ['symbolic coefficients are compared at one random rational point per case']
REQUIRED = ['__xor__', '__rxor__', '__or__', '__ror__', '__lt__', '__gt__', 'ga\\.wedge', 'ga\\.hestenes_dot', 'ga\\.left_contract',
            'ga\\.right_contract', 'ga\\.scalar_product', 'sp', 'sp-rev', 'ga\\.dot<', 'Mul\\^']
OPS = monitor.OUTER_INNER_OPS
KINDS = ('euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for f, m in (('prog', 300), ('table', 90), ('funcs', 120), ('sp', 60)):
        for i in range(m * k):
            out.append({'family': f, 'seed': '%d.%d' % (seed, i)})
    return out


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    a = gen.algebra(rng, KINDS, nmax=5 if fam != 'table' else 4, big=.1 if fam != 'table' else 0)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, OPS, a)
    C = w.cl(ga)
    bm = num.blade_map(ga)
    ck = ('int', 'rat', 'sym', 'poly', 'func') if n <= 3 else ('int', 'rat', 'sym')
    if fam == 'prog':
        regs = [gen.mk(ga, gen.mvspec(rng, n, ck)) for _ in range(5)]
        with w.installed():
            workload.run_program(rng, ga, regs, ['^', '|', '<', '>', '^', '|', '<', '>', '*', '+'], 10, maxlen=500, scal_prob=.25)
    elif fam == 'table':
        bl = list(ga.blades.flat)
        pairs = list(itertools.product(bl, bl))
        rng.shuffle(pairs)
        M = {b: ga.mv(b) for b in bl}
        with w.installed():
            for x, y in pairs[:50]:
                for op in '^|<>':
                    workload.binop(op, M[x], M[y])
    elif fam == 'funcs':
        A, B = (gen.mk(ga, gen.mvspec(rng, n, ck)) for _ in range(2))
        va, vb = w.val(A, ga), w.val(B, ga)
        tab = {'wedge': C.wedge, 'hestenes_dot': C.hestenes, 'left_contract': C.lcont, 'right_contract': C.rcont,
               'scalar_product': C.sprod}
        for name, f in tab.items():
            R = getattr(ga, name)(A.obj, B.obj)
            w.judge('ga.' + name, ga, [va, vb], w.val(ga.mv(R), ga), f(va, vb))
            x, y = rng.choice(list(ga.blades.flat)), rng.choice(list(ga.blades.flat))
            R = getattr(ga, name)(x, y)
            w.judge('ga.' + name, ga, [{bm[x]: 1}, {bm[y]: 1}], w.val(ga.mv(R), ga), f({bm[x]: 1}, {bm[y]: 1}))
        for m in '|<>':
            ga.dot_mode = m
            w.judge('ga.dot' + m, ga, [va, vb], w.val(ga.mv(ga.dot(A.obj, B.obj)), ga), C.product(m, va, vb))
        ga.dot_mode = '|'
        for m in '*^|<>':
            w.judge('Mul' + m, ga, [va, vb], w.val(ga.mv(ga.Mul(A.obj, B.obj, mode=m)), ga), C.product(m, va, vb))
            from galgebra.mv import Mv
            w.judge('Mv.Mul' + m, ga, [va, vb], w.val(Mv.Mul(A, B, m), ga), C.product(m, va, vb))
    else:
        from galgebra import mv as mvmod
        for _ in range(4):
            A, B = (gen.mk(ga, gen.mvspec(rng, n, ck)) for _ in range(2))
            va, vb = w.val(A, ga), w.val(B, ga)
            w.judge('sp', ga, [va, vb], w.val(A.sp(B), ga), ref.grade_part(C.gp(va, vb), 0))
            w.judge('sp-rev', ga, [va, vb], w.val(mvmod.sp(A, B, 'rev'), ga), ref.grade_part(C.gp(ref.rev(va), vb), 0))
