"""C11 reciprocal bases and frames."""
from sympy import symbols

from .. import gen, monitor, num, ref, workload

PROP = 'C11'
RULE = ('mvr/r_basis/r_basis_mv/r_basis_dict and g_inv of random nonsingular algebras (all metric kinds, symbolic and coordinate-dependent '
        'ones included, normalised bases included) and ReciprocalFrame of random independent vector sets in both modes; every pairing e^i|e_j '
        'is evaluated in the reference algebra. distinct_nontrivial counts distinct (query, indices, metric value).')
ASSUMPTIONS = ['frames are judged only when the volume element of the frame is non-null at the random point']
REQUIRED = ['mvr', 'mvr-unnorm', 'g_inv', 'g_inv-metric', 'frame', 'frame-span', 'frame-append', 'frame-E2', 'blade-recip']
KINDS = ('euclid', 'ortho', 'ortho', 'nonsing', 'nonsing', 'null', 'symortho', 'symnon', 'default', 'coordo', 'coordn')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('basis', 260), ('frame', 220)) for i in range(m * k)]


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    kind = rng.choice(KINDS)
    a = gen.algebra(rng, ({'coordo': 'ortho', 'coordn': 'nonsing'}.get(kind, kind),), nmax=4 if fam == 'basis' else 5, nmin=1, big=.04 if fam == 'frame' and kind not in ('coordo', 'coordn') else 0, gsym=.08)
    n = a['n']
    if kind == 'coordo':
        a['coords'] = gen.NAMES[:n]
        a['g'] = [rng.choice(['1', 'x**2', 'x**2+1', '-1', 'exp(x)', '(1+x)**2', 'sin(x)**2']) for _ in range(n)]
        if rng.random() < .4:
            a['g'] = [c for c in ['1', 'x**2', 'x**2*sin(y)**2' if n > 1 else 'x**2', '1', '1'][:n]]
            a['norm'] = True
    if kind == 'coordn':
        n = a['n'] = min(n, 2)
        a['basis'] = gen.basis_string(rng, n)
        a.pop('wedge', None)
        a['coords'] = gen.NAMES[:n]
        a['g'] = [['1', 'x'], ['x', '1+2*x**2']] if n == 2 else ['1+x**2']
    w, ga = workload.algebra_world(spec, rec, [], a)
    if a.get('norm'):
        ident = [['1' if i == j else '0' for j in range(n)] for i in range(n)]
        w.metrics[ga.name] = [[gen.parse(c) for c in r] for r in ident]
    C = w.cl(ga)
    if ref.close(ref.det(C.g), 0):
        rec.note('singular')
        return
    g = str(C.g)
    E2 = ref.scalar(C.gp(C.ps(), C.ps()))
    if fam == 'basis':
        def pair(kind, vecs, scale, tag=''):
            for i, r in enumerate(vecs):
                rv = w.val(r, ga)
                for j in range(n):
                    want = {0: scale} if i == j else {}
                    w.judge(kind, ga, [i, j, g, tag], C.hestenes(rv, {1 << j: 1}), want, extra='e^%d|e_%d metric %s %s' % (i, j, a['g'], tag))
                w.judge(kind, ga, [i, g, 'vec', tag], ref.grade_part(rv, 1), rv)
        pair('mvr', ga.mvr(), 1)
        pair('mvr', ga.mvr(norm=True), 1, 'norm=True')
        pair('mvr-unnorm', ga.mvr(norm=False), 1 if ga.is_ortho else E2, 'norm=False')
        pair('mvr', ga.mvr(), 1, 'again')
        inv = ref.matinv(C.g)
        gi = ga.g_inv
        for i in range(n):
            for j in range(n):
                w.judge('g_inv', ga, [i, j, g], {0: w.env.num(gi[i, j])}, {0: inv[i][j]}, extra='%d %d of %s' % (i, j, a['g']))
        if kind not in ('symnon', 'default') and a['g'] and not (kind == 'coordo' and n > 3):
            M = gen.metric(a)           # the base class on its own: the same metric, no algebra built
            gm = M.g_inv
            for i in range(n):
                for j in range(n):
                    w.judge('g_inv-metric', ga, [i, j, g], {0: w.env.num(gm[i, j])}, {0: inv[i][j]}, extra='Metric.g_inv[%d,%d] of %s' % (i, j, a['g']))
        rd = ga.r_basis_dict
        sc = 1 if ga.is_ortho else E2
        for i, r in enumerate(ga.r_symbols):
            rv = num.mv_value(ga.mv(rd[r]), w.env, ga, C)
            for j in range(n):
                w.judge('mvr', ga, [i, j, g, 'dict'], C.hestenes(rv, {1 << j: 1}), {0: sc} if i == j else {})
        if not (kind in ('symnon', 'default') and n > 2):
            bl = list(ga.blades.flat)
            for b in rng.sample(bl, min(len(bl), 4)):
                R = w.val(ga.mv(ga._reciprocal_blade_dict[b]), ga) if hasattr(ga, '_reciprocal_blade_dict') else None
                if R is None:
                    rec.note('no-recip-blade')
                    break
                for b2 in bl:
                    k2 = num.blade_map(ga).get(b2, 0)
                    w.judge('blade-recip', ga, [str(b), str(b2), g], ref.grade_part(C.gp(R, {k2: 1}), 0), {0: 1} if b == b2 else {},
                            extra='<%s recip * %s>' % (b, b2))
    else:
        m = rng.randint(1, n)
        sym = n <= 3 and rng.random() < .3
        vs = [gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym') if sym and rng.random() < .4 else ('int', 'rat'), style='vector')) for _ in range(m)]
        vals = [w.val(v, ga) for v in vs]
        E = {0: 1}
        for v in vals:
            E = ref.wedge(E, v)
        e2 = ref.scalar(C.gp(E, E))
        if ref.close(e2, 0):
            rec.note('null-volume')
            return
        before = [str(v.obj) for v in vs]
        arg = vs if rng.random() < .5 else tuple(vs)
        R = ga.ReciprocalFrame(arg)
        R2 = ga.ReciprocalFrame(arg, mode='norm')
        A = ga.ReciprocalFrame(arg, mode='append')
        rec.check(len(R) == m and len(A) == m + 1 and [str(v.obj) for v in vs] == before, 'frame-form', m, 'frame-form', 'lengths %d %d for %d vectors' % (len(R), len(A), m))
        for tag, F, sc, kind_ in (('norm', R, 1, 'frame'), ('norm=', R2, 1, 'frame'), ('append', A[:m], e2, 'frame-append')):
            for i in range(m):
                rv = w.val(F[i], ga)
                for j in range(m):
                    w.judge(kind_, ga, [rv, vals[j]], C.hestenes(rv, vals[j]), {0: sc} if i == j else {}, extra='%s %d %d' % (tag, i, j))
                w.judge('frame-span', ga, [rv, E], ref.wedge(rv, E), {}, extra=tag)
                w.judge('frame-span', ga, [rv, 'v'], ref.grade_part(rv, 1), rv, extra=tag)
        w.judge('frame-E2', ga, [str(vals)], w.val(A[m], ga), {0: e2})
