"""C14 connection and derivatives of basis vectors."""
from sympy import Symbol, diff

from .. import gen, geo, monitor, num, ref

PROP = 'C14'
RULE = ('27 coordinate systems (Cartesian, oblique, orthogonal and non-orthogonal curvilinear, flat and curved, Euclidean and indefinite, '
        'normalised and not, built from a metric or from an embedding) with random fields: Christoffel symbols of both kinds, de, pDiff, diff, '
        'pdiff, Pdop, blade_derivation, multi-derivatives, product rule and metric compatibility, in random order so caches are shared, compared at '
        'a random point with an independently computed connection. distinct_nontrivial counts distinct (query, system, field, coordinate).')
ASSUMPTIONS = ['coordinates are evaluated at positive points inside each chart', 'Christoffel symbols are claimed for un-normalised bases']
REQUIRED = ['gamma1', 'gamma2', 'gamma-metric', 'pDiff', 'diff', 'pdiff', 'pdop', 'multi', 'leibniz', 'compat', 'param', 'bladeD', 'de']
SYS = geo.systems_cached()
CASE_TIMEOUT = {'quick': 40, 'thorough': 240}


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = []
    for i in range(k):
        for s in range(len(SYS)):
            if tier == 'quick' and SYS[s]['big'] and i:
                continue
            for norm in ((0, 1) if SYS[s]['ortho'] else (0,)):
                via = 'X' if SYS[s]['X'] and '-1' not in SYS[s]['flat'] and i % 3 == 1 else 'g'
                out.append({'family': 'deriv', 'sys': s, 'norm': norm, 'via': via, 'seed': '%d.%d' % (seed, i)})
    for i in range(40 if tier == 'quick' else 600):
        out.append({'family': 'deriv', 'sys': -1, 'norm': 0, 'via': 'g', 'tmo': 20, 'seed': '%d.r%d' % (seed, i)})
    return out


def run(spec, rec):
    from galgebra.dop import Pdop
    rng = gen.rng_for({'family': spec['family'], 'seed': '%s.%s.%s.%s' % (spec['seed'], spec['sys'], spec['norm'], spec['via'])})
    s = geo.system(spec['sys'], spec['seed'])
    n = s['n']
    env = geo.env_for(spec['seed'])
    G = geo.geometry(s, env, bool(spec['norm']))
    ga = geo.build(s, rng, bool(spec['norm']), spec['via'], gsym=.12)
    w = monitor.World(rec, env)
    w.register(ga, G.g)
    xs = geo.XYZ[:n]
    tag = '%s norm=%s via=%s' % (s['name'], spec['norm'], spec['via'])
    names = 'xyz'[:n]

    def sysfield(style=None):
        while True:
            fs = geo.fieldspec(rng, n, style)
            if all(not (P.free_symbols - set(xs) - {Symbol('a', real=True)}) for P in (geo.P(c) for _, c in fs)):
                return fs
            # drop coefficients using coordinates this system does not have
            fs = [[m, c] for m, c in fs if not (geo.P(c).free_symbols - set(xs) - {Symbol('a', real=True)})]
            if fs:
                return fs

    def gammas():
        if spec['norm'] or not ga.connect_flg:
            return
        for mode, T, kind in ((1, G.G1, 'gamma1'), (2, G.G2, 'gamma2')):
            L = ga.Christoffel_symbols(mode)
            for i in range(n):
                for j in range(n):
                    for k in range(n):
                        w.judge(kind, ga, [i, j, k, s['name']], {0: env.num(L[i][j][k])}, ref.clean({0: env.num(T[i][j][k])}),
                                extra='%d%d%d %s' % (i, j, k, tag))
        if s['big'] or rng.random() < .5:
            return
        M = geo.metric(s, rng)      # the base class on its own, no algebra built
        for mode, T in ((2, G.G2), (1, G.G1)):
            L = M.Christoffel_symbols(mode)
            for i in range(n):
                for j in range(n):
                    for k in range(n):
                        w.judge('gamma-metric', ga, [mode, i, j, k, s['name']], {0: env.num(L[i][j][k])}, ref.clean({0: env.num(T[i][j][k])}),
                                extra='Metric.Christoffel_symbols(%d)[%d][%d][%d] %s' % (mode, i, j, k, tag))

    def de():
        if not ga.connect_flg:
            for j in range(n):
                rec.check(not G.curved, 'flat', tag, 'connection-missing', 'connect_flg false for ' + tag)
            return
        for i in range(n):
            for j in range(n):
                want = ref.clean({1 << k: env.num(G.conn[i][j][k]) for k in range(n)})
                w.judge('de', ga, [i, j, s['name'], spec['norm']], ga.mv(ga.de[i][j]), want, extra='de[%d][%d] %s' % (i, j, tag))

    def derivs():
        F = geo.field(sysfield())
        A = geo.mvfield(ga, F)
        key = str(F)
        how = rng.random()
        if how < .2:
            A = A.base_rep()
        elif how < .4:
            A = ga.mv((geo.P('a') + 1) * A.obj)
            F = {m: (geo.P('a') + 1) * c for m, c in F.items()}
        for i in rng.sample(range(n), n):
            want = G.num(G.D(i, F))
            w.judge('pDiff', ga, [key, i, tag], ga.pDiff(A, xs[i]), want, extra='%s d/d%s of %s' % (tag, xs[i], F))
            w.judge('diff', ga, [key, i, tag], A.diff(xs[i]), want, extra=tag)
            w.judge('pdiff', ga, [key, i, tag], A.pdiff(xs[i]), want, extra=tag)
            w.judge('pdop', ga, [key, i, tag], Pdop(xs[i]) * A, want, extra=tag)
        for v in (Symbol('a', real=True), Symbol('k', real=True), Symbol('q_1')):
            want = G.num({m: diff(c, v) for m, c in F.items()})
            w.judge('param', ga, [key, v, tag], A.diff(v), want, extra=tag)
        pd = {v: rng.randint(1, 2) for v in rng.sample(xs, rng.randint(1, n))}
        if not s['big'] and rng.random() < .3:      # higher orders of few coordinates
            pd = {v: rng.randint(1, 4) for v in rng.sample(xs, 1)} if rng.random() < .6 else {v: rng.randint(1, 3) for v in rng.sample(xs, min(n, 2))}
        if not s['big']:
            want = G.num(G.Dp(pd, F))
            w.judge('multi', ga, [key, str(pd), tag], Pdop(pd)(A), want, extra='%s %s %s' % (tag, pd, F))
            orders = [pd.get(v, 0) for v in xs]
            ordered = {v: k for v, k in zip(xs, orders) if k}
            w.judge('multi', ga, [key, orders, tag], ga.pDiff(A, orders), G.num(G.Dp(ordered, F)), extra=tag)

    def blade_der():
        for b in rng.sample(list(ga.blades.flat), min(1 << n, 3)):
            m = num.blade_map(ga).get(b)
            if m is None or not ga.connect_flg:
                continue
            i = rng.randrange(n)
            c = rng.choice([i, xs[i]])
            w.judge('bladeD', ga, [m, i, tag], ga.mv(ga.blade_derivation(b, c)), G.num(G.D(i, {m: geo.P('1')})), extra='%s %s d%d' % (tag, b, i))

    def leibniz():
        F1, F2 = geo.field(sysfield('sparse')), geo.field(sysfield('sparse'))
        A, B = geo.mvfield(ga, F1), geo.mvfield(ga, F2)
        i = rng.randrange(n)
        op = rng.choice('*^|<>')
        prod = {'*': A * B, '^': A ^ B, '|': A | B, '<': A < B, '>': A > B}[op]
        want = ref.add(G.cl.product(op, G.num(G.D(i, F1)), G.num(F2)), G.cl.product(op, G.num(F1), G.num(G.D(i, F2))))
        w.judge('leibniz', ga, [str(F1), str(F2), i, op, tag], ga.pDiff(prod, xs[i]), want, extra='%s %s d%d %s, %s' % (tag, op, i, F1, F2))

    def compat():
        i, j, k = rng.randrange(n), rng.randrange(n), rng.randrange(n)
        e = ga.mv()
        L = (e[j].diff(xs[i]) | e[k]) + (e[j] | e[k].diff(xs[i]))
        want = env.num(diff(G.g[j][k], xs[i]))
        w.judge('compat', ga, [i, j, k, tag], L, ref.clean({0: want}), extra='%s %d %d%d' % (tag, i, j, k))

    jobs = [gammas, de, derivs, derivs, blade_der, leibniz, leibniz, compat]
    rng.shuffle(jobs)
    for jb in jobs:
        jb()
