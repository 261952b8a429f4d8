"""C01 geometric product = Clifford product of the metric."""
import itertools

from .. import gen, monitor, num, ref, workload

PROP = 'C01'
RULE = ('Random algebras (dim 0-5; orthonormal, indefinite, degenerate, non-orthogonal, symbolic, default metric) run random '
        'programs of geometric products, full basis-blade product tables and products of vector chains; every * on a '
        'multivector is hooked and compared with the reference Clifford product after numeric specialisation of the operands. '
        'distinct_nontrivial counts distinct (operator, dimension, operand values) triples.')
ASSUMPTIONS = ['symbolic coefficients are compared at one random rational point per case',
               'reference Clifford model gamon/ref.py (self-tested for associativity and v*v=g(v,v) at start-up)']
REQUIRED = ['__mul__', '__rmul__', 'table', 'gafunc']
OPS = monitor.PRODUCT_OPS


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for i in range(260 * k):
        out.append({'family': 'prog', 'seed': '%d.%d' % (seed, i)})
    for i in range(70 * k):
        out.append({'family': 'chain', 'seed': '%d.%d' % (seed, i)})
    for i in range(40 * k):
        out.append({'family': 'table', 'seed': '%d.%d' % (seed, i)})
    for r in range(max(1, k // 4)):
        for n in (3, 4, 5, 6):
            out += [{'family': 'sparse', 'n': n, 'i': i, 'j': j, 'seed': '%d.%d' % (seed, r)} for i, j in itertools.combinations(range(n), 2)]
    return out


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    kinds = ('euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')
    if fam == 'prog':
        a = gen.algebra(rng, kinds, nmax=5, big=.1, gsym=.04)
        w, ga = workload.algebra_world(spec, rec, OPS, a)
        ck = ('int', 'rat', 'sym', 'poly', 'func') if a['n'] <= 3 else ('int', 'rat', 'sym')
        regs = [gen.mk(ga, gen.mvspec(rng, a['n'], ck)) for _ in range(4)]
        with w.installed():
            workload.run_program(rng, ga, regs, ['*'], 7, maxlen=500)
    elif fam == 'chain':
        a = gen.algebra(rng, kinds, nmax=5, nmin=2)
        w, ga = workload.algebra_world(spec, rec, OPS, a)
        n = a['n']
        vecs = [gen.mk(ga, [[1 << i, gen.coef(rng, 'int')] for i in rng.sample(range(n), rng.choice([1, 1, 2]))]) for _ in range(4)]
        vecs += list(ga.mv())
        with w.installed():
            P = ga.mv(1)
            for _ in range(rng.randint(4, 8)):
                v = rng.choice(vecs)
                P = P * v if rng.random() < .6 else v * P
    elif fam == 'sparse':
        # a metric with one off-diagonal entry, at every place
        rng = gen.rng_for({'family': 'sparse', 'seed': '%s.%d.%d.%d' % (spec['seed'], spec['n'], spec['i'], spec['j'])})
        n, i, j = spec['n'], spec['i'], spec['j']
        g = [[rng.choice(['1', '1', '-1', '0', '2']) if p == q else '0' for q in range(n)] for p in range(n)]
        g[i][j] = g[j][i] = rng.choice(['-1', '1', '-2', '1/2'])
        w, ga = workload.algebra_world(spec, rec, OPS, {'kind': 'nonortho', 'n': n, 'basis': gen.basis_string(rng, n), 'g': g})
        e = ga.mv()
        with w.installed():
            for p, q in rng.sample(list(itertools.product(range(n), range(n))), min(n * n, 16)) + [(i, j), (j, i), (i, i), (j, j)]:
                e[p] * e[q]
            for _ in range(3):
                x, y = [gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat'), style=rng.choice(['vector', 'blade', 'sparse']))) for _ in range(2)]
                (e[j] * x) * (e[i] * y)
    else:
        a = gen.algebra(rng, kinds, nmax=4 if spec['seed'].startswith('q') else 4)
        if a['n'] == 4 and a['kind'] in ('nonortho', 'nonsing', 'null'):
            pass
        w, ga = workload.algebra_world(spec, rec, OPS, a)
        C = w.cl(ga)
        bm = num.blade_map(ga)
        bl = list(ga.blades.flat)
        pairs = list(itertools.product(bl, bl))
        rng.shuffle(pairs)
        pairs = pairs[:96]
        M = {b: ga.mv(b) for b in bl}
        with w.installed():
            for x, y in pairs:
                R = M[x] * M[y]
                rec.event('table', '%s|%s' % (a, (bm[x], bm[y])))
        # Ga-level product on sympy expressions
        for x, y in pairs[:24]:
            z = ga.mul(2 * x + y, y - 3)
            A, B = ref.add({bm[x]: 2}, {bm[y]: 1}), ref.add({bm[y]: 1}, {0: -3})
            w.judge('gafunc', ga, [A, B], w.val(ga.mv(z), ga), C.gp(A, B))
