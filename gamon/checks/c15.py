"""C15 induced metrics of submanifolds and vector manifolds."""
from sympy import Matrix, Rational, S, Symbol, diff

from .. import gen, geo, monitor, num, ref

PROP = 'C15'
RULE = ('Submanifolds of dimension 1 to 3 of 27 base coordinate systems and random ones (curved, oblique, indefinite, normalised) given by random coordinate maps, '
        'submanifolds of submanifolds, coordinate names shared with the base in any order, vector-valued embeddings over constant metrics, and algebras built '
        'from X=; g and g_raw compared with J^T g(u) J at a random point, then products, partial derivatives, gradient and vpds() of the new algebra against the reference geometry '
        'of the pulled-back metric. distinct_nontrivial counts distinct (query, base, map).')
ASSUMPTIONS = ['vector-valued embeddings are claimed for a base whose metric is constant', 'points where the induced metric is singular are not judged']
REQUIRED = ['metric', 'metric-nested', 'metric-vec', 'metric-X', 'metric-shared', 'product', 'pDiff', 'grad.*', 'vpd', 'reject-dim', 'base-kept', 'norm-metric']
SYS = geo.systems_cached()
CASE_TIMEOUT = {'quick': 15, 'thorough': 200}
SUBC = [Symbol(s, real=True) for s in ('u', 'v', 'w')]


def cases(tier, seed):
    k = 3 if tier == 'quick' else 40
    out = []
    for i in range(k):
        for s in range(-3, len(SYS)):
            out.append({'family': 'map', 'sys': s, 'seed': '%d.%d' % (seed, i)})
            if i == 0 or tier != 'quick':
                out.append({'family': 'nested', 'sys': s, 'seed': '%d.%d' % (seed, i)})
                out.append({'family': 'shared', 'sys': s, 'seed': '%d.%d' % (seed, i)})
    for i in range(30 if tier == 'quick' else 400):
        out.append({'family': 'vec', 'sys': -1, 'seed': '%d.%d' % (seed, i)})
        out.append({'family': 'X', 'sys': -1, 'seed': '%d.%d' % (seed, i)})
    return out


def comp(rng, names, simple=False):
    """One coordinate function of the submanifold coordinates, positive on (0, 3/2)."""
    p, q = rng.choice(names), rng.choice(names)
    L = ['{0}', '{0}', '1', '2', '{0}**2', '{0}+{1}', '{0}*{1}', '{0}+1', '{0}/2', '1+{0}**2', '2*{0}', 'k*{0}']
    if not simple:
        L += ['sin({0})', 'exp({0})', 'cosh({0})', 'sin({0})*cos({1})', '2+cos({0})', 'cos({0})']
    return rng.choice(L).format(p, q)


def subs_sim(e, pairs):
    return e.xreplace(dict(pairs))


def pull(gbase, bcoords, u, coords):
    """J^T g(u) J, unsimplified."""
    n, m = len(bcoords), len(coords)
    J = [[diff(u[k], c) for c in coords] for k in range(n)]
    gu = [[subs_sim(S(gbase[k][l]), zip(bcoords, u)) for l in range(n)] for k in range(n)]
    return [[sum((J[k][i] * J[l][j] * gu[k][l] for k in range(n) for l in range(n)), S.Zero) for j in range(m)] for i in range(m)]


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def ok_metric(env, g):
    """Numeric induced metric when regular at the point and within size limits."""
    try:
        G = [[env.num(e) for e in r] for r in g]
    except (num.NonFinite, num.Malformed):
        return None
    if any(isinstance(x, num.mpmath.mpc) for r in G for x in r):
        return None
    if abs(det([[float(x) for x in r] for r in G])) < 1e-9:
        return None
    return G


def judge_metric(w, kind, sub, g, tag, norm=False):
    """Entries of the library's metric against the expected ones."""
    env, rec = w.env, w.rec
    m = len(g)
    for nm, L in (('g_raw', sub.g_raw), ('g', sub.g)):
        if nm == 'g' and norm:
            continue
        rec.check(tuple(L.shape) == (m, m), kind + '-shape', tag, kind + '-shape', lambda: '%s of %s has shape %s' % (nm, tag, L.shape))
        for i in range(m):
            for j in range(m):
                want, got = env.num(g[i][j]), env.num(L[i, j])
                rec.check(ref.close(got, want), kind, '%s %s%d%d' % (tag, nm, i, j), kind,
                          lambda: '%s[%d,%d] of %s is %s = %s, expected %s' % (nm, i, j, tag, L[i, j], got, want))


def judge_algebra(rng, w, sub, coords, g, tag, deriv=True, norm=False):
    """Products and derivatives of the new algebra are those of the expected metric."""
    env, rec = w.env, w.rec
    n = len(coords)
    Gm = geo.Geometry(coords, g, norm=norm, env=env)
    if norm:
        gn = Gm.gnum
        for i in range(n):
            for j in range(n):
                got = env.num(sub.g[i, j])
                rec.check(ref.close(got, gn[i][j]), 'norm-metric', '%s%d%d' % (tag, i, j), 'norm-metric',
                          lambda: 'normalised g[%d,%d] of %s is %s, expected %s' % (i, j, tag, got, gn[i][j]))
    w.metrics[sub.name] = Gm.g
    w._cl[sub.name] = Gm.cl
    for _ in range(2):
        A = gen.mk(sub, gen.mvspec(rng, n, ('int', 'rat')))
        B = gen.mk(sub, gen.mvspec(rng, n, ('int', 'sym')))
        a, b = w.val(A, sub), w.val(B, sub)
        for op in rng.sample('*^|<>', 3):
            w.judge('product', sub, [tag, op, a, b], {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B}[op](),
                    Gm.cl.product(op, a, b), extra='%s %s' % (tag, op))
    if not deriv:
        return
    cn = [str(c) for c in coords]
    F = {}
    for m_ in rng.sample(range(1 << n), min(1 << n, 2)):
        F[m_] = geo.P(comp(rng, cn))
    A = geo.mvfield(sub, F)
    for i in range(n):
        w.judge('pDiff', sub, [tag, str(F), i], sub.pDiff(A, coords[i]), Gm.num(Gm.D(i, F)), extra='%s d/d%s %s' % (tag, coords[i], F))
    grad, rgrad = sub.grads()
    for op in rng.sample('*^|<>', 2):
        for left in (True, False):
            D = grad if left else rgrad
            X, Y = (D, A) if left else (A, D)
            R = {'*': lambda: X * Y, '^': lambda: X ^ Y, '|': lambda: X | Y, '<': lambda: X < Y, '>': lambda: X > Y}[op]()
            w.judge('grad' + op, sub, [tag, str(F), left], R, Gm.grad(op, F, left=left), extra='%s %s left=%s F=%s' % (tag, op, left, F))
    if hasattr(sub, 'vpds'):
        vpd, rvpd = sub.vpds()
        w.judge('vpd', sub, [tag, str(F)], vpd * A, Gm.grad('*', F), extra=tag)
        w.judge('vpd', sub, [tag, str(F), 'r'], A * rvpd, Gm.grad('*', F, left=False), extra=tag)


def simple_enough(g):
    return sum(S(e).count_ops() for r in g for e in r) < (90 if len(g) > 1 else 250)


def run(spec, rec):
    from galgebra.ga import Ga
    rng = gen.rng_for({'family': spec['family'], 'seed': '%s.%s' % (spec['seed'], spec['sys'])})
    fam = spec['family']
    env = geo.env_for(spec['seed'])
    for c in SUBC:
        env.values[c] = env.values[geo.XYZ[SUBC.index(c)]] * Rational(9, 10)
    w = monitor.World(rec, env)

    if fam in ('map', 'nested', 'shared'):
        s = geo.system(spec['sys'], '%s%s' % (spec['seed'], spec['sys']))
        n = s['n']
        bnorm = s['ortho'] and rng.random() < .3
        base = geo.build(s, rng, bnorm)
        graw = geo.metric_matrix(s)
        bc = geo.XYZ[:n]
        if n == 1:
            m = 1
        else:
            m = rng.choice([1, 1, 2, 2, min(3, n)]) if n > 1 else 1
            m = min(m, n)
        if fam == 'shared':
            pool = list(bc) + SUBC
            coords = rng.sample(list(bc), min(m, n)) if rng.random() < .7 else rng.sample(pool, m)
        else:
            coords = SUBC[:m]
        for attempt in range(12):
            simple = m == 3 or s['big'] or attempt > 5 or (m == 2 and rng.random() < .5)
            us = [comp(rng, [str(c) for c in coords], simple) for _ in range(n)]
            u = [geo.P(e) for e in us]
            g = pull(graw, bc, u, coords)
            if ok_metric(env, g) is not None and simple_enough(g):
                break
        else:
            rec.note('no-regular-map')
            return
        gn = ok_metric(env, g)
        diag = all(S(g[i][j]).expand().equals(0) for i in range(m) for j in range(m) if i != j)
        norm = diag and rng.random() < .3
        root = rng.choice(['e', 'f', 'e'])
        tag = '%s bnorm=%s coords=%s u=%s norm=%s' % (s['name'], bnorm, coords, us, norm)
        how = rng.random()
        uarg, carg = (list(u), list(coords)) if how < .5 else (tuple(u), tuple(coords))
        before = (str(base.g), str(base.coords), str(base.g_raw))
        sub = base.sm(uarg, carg, norm=norm, root=root)
        rec.check(before == (str(base.g), str(base.coords), str(base.g_raw)), 'base-kept', tag, 'base-changed', lambda: 'base changed by sm: ' + tag)
        rec.check(list(sub.coords) == list(coords) and sub.n == m, 'coords', tag, 'sub-coords', lambda: 'coords of submanifold %s: %s' % (tag, sub.coords))
        judge_metric(w, 'metric-shared' if fam == 'shared' else 'metric', sub, g, tag, norm=norm)
        judge_algebra(rng, w, sub, coords, g, tag, deriv=m < 3 and not s['big'], norm=norm)
        # wrong number of coordinate functions
        bad = u + [S.One] if rng.random() < .5 or n == 1 else u[:-1]
        try:
            base.sm(bad, carg)
            ok = False
        except ValueError:
            ok = True
        rec.check(ok, 'reject-dim', tag, 'dim-accepted', lambda: 'map with %d functions accepted by base of dim %d' % (len(bad), n))
        if fam == 'nested':
            c2 = [Symbol('t', real=True)] if rng.random() < .6 or m == 1 else [coords[-1], Symbol('t', real=True)][:m]
            env.values[Symbol('t', real=True)] = Rational(5, 7)
            for _ in range(8):
                us2 = [comp(rng, [str(c) for c in c2], True) for _ in range(m)]
                u2 = [geo.P(e) for e in us2]
                g2 = pull(g, coords, u2, c2)
                if ok_metric(env, g2) is not None and simple_enough(g2):
                    sub2 = sub.sm(u2, c2)
                    tag2 = tag + ' / %s %s' % (us2, c2)
                    judge_metric(w, 'metric-nested', sub2, g2, tag2)
                    judge_algebra(rng, w, sub2, c2, g2, tag2, deriv=len(c2) == 1)
                    break
    elif fam == 'vec':
        n = rng.choice([2, 2, 3, 3, 4])
        kind = rng.choice(['e', 'm', 'o', 's'])
        if kind == 'e':
            gb = [[S(int(i == j)) for j in range(n)] for i in range(n)]
        elif kind == 'm':
            gb = [[S(int(i == j)) * (1 if i == 0 else -1) for j in range(n)] for i in range(n)]
        elif kind == 's':
            d = [rng.choice(['1', '2', 'k', '1/2']) for _ in range(n)]
            gb = [[geo.P(d[i]) if i == j else S.Zero for j in range(n)] for i in range(n)]
        else:
            gb = [[S(2) if i == j else S.Zero for j in range(n)] for i in range(n)]
            gb[0][1] = gb[1][0] = geo.P(rng.choice(['1/2', '-1', 'k/3']))
        base = Ga(gen.basis_string(rng, n), g=gb if kind != 'e' else [1] * n, coords=geo.XYZ[:n] if n <= 4 and rng.random() < .7 else None)
        m = rng.choice([1, 2, 2])
        coords = SUBC[:m] if rng.random() < .7 else list(geo.XYZ[:m])
        for _ in range(12):
            us = [rng.choice(['0', '1']) if rng.random() < .2 else comp(rng, [str(c) for c in coords], rng.random() < .5) for _ in range(n)]
            u = [geo.P(e) for e in us]
            g = pull(gb, geo.XYZ[:n], u, coords)
            if ok_metric(env, g) is not None and simple_enough(g):
                break
        else:
            rec.note('no-regular-map')
            return
        X = base.mv(sum((c * b for c, b in zip(u, base.basis)), S.Zero))
        tag = 'vec %s n=%d coords=%s X=%s' % (kind, n, coords, us)
        sub = base.sm(X, coords, root=rng.choice(['e', 'f']))
        judge_metric(w, 'metric-vec', sub, g, tag)
        judge_algebra(rng, w, sub, coords, g, tag)
        # the tangent vectors exposed by a vector manifold
        w.register(base, gb)
        for i, c in enumerate(coords):
            w.judge('ebasis', base, [tag, i], sub.ebasis[i], ref.clean({1 << k: env.num(diff(u[k], c)) for k in range(n)}), extra=tag)
    else:
        n = rng.choice([1, 2, 2, 2, 3])
        coords = geo.XYZ[:n]
        N = n          # X= requires as many Cartesian components as coordinates or more
        N = n + rng.choice([0, 0, 1])
        for _ in range(12):
            us = [comp(rng, [str(c) for c in coords], n == 3 or rng.random() < .5) for _ in range(N)]
            u = [geo.P(e) for e in us]
            E = [[S(int(i == j)) for j in range(N)] for i in range(N)]
            dum = [Symbol('dm%d' % i) for i in range(N)]
            g = pull(E, dum, u, coords)
            if ok_metric(env, g) is not None and simple_enough(g):
                break
        else:
            rec.note('no-regular-map')
            return
        tag = 'X n=%d N=%d X=%s' % (n, N, us)
        diag = all(S(g[i][j]).expand().equals(0) for i in range(n) for j in range(n) if i != j)
        norm = bool(diag and rng.random() < .4)
        ga = Ga(gen.basis_string(rng, n), X=list(u), coords=coords, norm=norm)
        judge_metric(w, 'metric-X', ga, g, tag, norm=norm)
        judge_algebra(rng, w, ga, coords, g, tag, deriv=n < 3, norm=norm)
