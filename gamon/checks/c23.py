"""C23 construction of algebras and multivectors."""
import itertools
from math import comb

from sympy import Function, ImmutableMatrix, Matrix, Rational, S, Symbol, diff, expand, sympify
from sympy.core.function import AppliedUndef

from .. import gen, monitor, num, ref

PROP = 'C23'
RULE = ('alg: algebras from every basis form (root*indices, root*count, space or comma separated names, root with coordinates, no basis) and metric form (string with rationals and #, list, tuple, '
        'nested list, Matrix, ImmutableMatrix, symbolic functions, default) with their published tables (basis, blades and indexes in grade order, index maps, metric, coordinates, basis vectors, '
        'products of basis vectors) compared with the request. mv: every multivector constructor form, singly and several names at once, compared blade by blade. cl: Cl(p,q,r) of both conventions '
        'and Ga.build. bad: malformed requests, which must raise. distinct_nontrivial counts distinct (form, request).')
ASSUMPTIONS = ['basis vectors and coordinates of one algebra have distinct names']
CASE_TIMEOUT = {'quick': 15, 'thorough': 120}
REQUIRED = ['basis', 'metric', 'blades', 'indexes', 'coords', 'vectors', 'square', 'metric-arg', 'bases', 'cat-.*', 'field', 'coeffs', 'expr', 'copy', 'names', 'cl', 'cl-kingdon', 'cl-dual', 'build', 'reject',
            'reject-alg', 'symmetric', 'string', 'functions', 'title', 'ortho', 'instances', 'coordvec', 'sig']


def cases(tier, seed):
    k = 4 if tier == 'quick' else 56
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('alg', 150), ('mv', 150), ('cl', 50), ('bad', 60)) for i in range(m * k)]


ROOTS = ['e', 'gamma', 'f', 'b', 'sigma']


def basis(rng, n):
    """(argument, expected names, coords needed)"""
    k = rng.randrange(8)
    r = rng.choice(ROOTS)
    idx = rng.choice([[str(i + 1) for i in range(n)], [str(i) for i in range(n)], list('xyzwvu')[:n], list('tabcde')[:n], ['%d' % (10 + i) for i in range(n)]])
    if n == 0:
        return '', [], False
    if k == 0 and n > 1:
        return r + '*' + '|'.join(idx), ['%s_%s' % (r, i) for i in idx], False
    if k == 1:
        return '%s*%d' % (r, n), ['%s_%d' % (r, i) for i in range(n)], False
    if k == 2:
        return r, None, True
    if k == 3:
        names = rng.sample(['a', 'b', 'c', 'd', 'p', 'q', 'n', 'nbar', 'eo', 'einf'], n)
    elif k == 4:
        names = ['%s_%s' % (r, i) for i in idx]
    elif k == 5:
        names = ['%s_%s' % (rng.choice('efgh'), i) for i in idx]
    elif k == 6:
        h = (n + 1) // 2
        names = (['e_%d' % (i + 1) for i in range(h)] + ['f_%d' % (i + 1) for i in range(h)])[:n]
    else:
        names = (['e_%d' % (i + 1) for i in range(n - 1)] + ['n'])[:n]
    if n == 1:
        return names[0] + ',', names, False
    return rng.choice([' ', ',']).join(names), names, False


def mentry(rng):
    return rng.choice(['1', '-1', '0', '2', '1/2', '-3/2', 'p', 'q', 'p*q', 'p+1', 's', '1'])


def metric(rng, n, names, kind=None):
    """(kwargs, expected list of lists (None: read back), kind)"""
    kind = kind or rng.choice(['list', 'tuple', 'nested', 'matrix', 'immutable', 'string', 'string2', 'default', 'diagmatrix'])
    if kind in ('list', 'tuple'):
        d = [gen.parse(mentry(rng)) for _ in range(n)]
        d = [int(x) if x.is_Integer and rng.random() < .5 else x for x in d]
        return {'g': d if kind == 'list' else tuple(d)}, [[S(d[i]) if i == j else S.Zero for j in range(n)] for i in range(n)], kind
    if kind in ('nested', 'matrix', 'immutable', 'diagmatrix'):
        M = [[S.Zero] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = gen.parse(mentry(rng)) if i == j or (kind != 'diagmatrix' and rng.random() < .6) else S.Zero
        if kind == 'nested' and n == 0:
            return {'g': []}, [], kind
        g = {'nested': lambda: [list(r) for r in M], 'matrix': lambda: Matrix(n, n, lambda i, j: M[i][j]), 'diagmatrix': lambda: Matrix(n, n, lambda i, j: M[i][j]),
             'immutable': lambda: ImmutableMatrix(n, n, lambda i, j: M[i][j])}[kind]()
        return {'g': g}, M, kind
    if kind == 'string':
        d = [rng.choice(['1', '-1', '0', '2', '1/2', '-3/2', '#']) for _ in range(n)]
        if n == 0:
            return {'g': []}, [], 'list'
        return {'g': ' '.join(d)}, [[(None if d[i] == '#' else Rational(d[i])) if i == j else S.Zero for j in range(n)] for i in range(n)], kind
    if kind == 'string2':
        if n < 2:
            return metric(rng, n, names, 'string')
        d = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                d[i][j] = d[j][i] = rng.choice(['1', '-1', '0', '0', '2', '1/2', '#', '#'])
        return {'g': rng.choice([',', ', ']).join(' '.join(r) for r in d)}, [[None if x == '#' else Rational(x) for x in r] for r in d], kind
    return {}, [[None] * n for _ in range(n)], 'default'


def coeffs(A):
    """{mask: coefficient expression} of a blade-representation multivector."""
    bm = num.blade_map(A.Ga)
    out = {}
    for t in expand(A.obj).as_ordered_terms() if A.obj != 0 else []:
        c, nc = t.args_cnc()
        m = bm[nc[0]] if nc else 0
        assert len(nc) <= 1
        x = S.One
        for f in c:
            x = x * f
        out[m] = out.get(m, S.Zero) + x
    return {m: c for m, c in out.items() if c != 0}


def run(spec, rec):
    rng = gen.rng_for(spec)
    {'alg': alg, 'mv': mvs, 'cl': cl, 'bad': bad}[spec['family']](spec, rec, rng)


def alg(spec, rec, rng):
    from galgebra.ga import Ga
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5])
    arg, names, need = basis(rng, n)
    kw, want, kind = metric(rng, n, names, None if n else 'list')
    sym_only = kind in ('default', 'string', 'string2') and any(x is None for r in want for x in r)
    if n > 3 and any(w is None or not w.is_number for r in want for w in r):
        kw, want, kind = {'g': [1, -1, 2, 0, 1][:n]}, [[[1, -1, 2, 0, 1][i] if i == j else 0 for j in range(n)] for i in range(n)], 'list'
        sym_only = False
    if n > 3 and kind in ('nested', 'matrix', 'immutable', 'string2'):
        n_off = [(i, j) for i in range(n) for j in range(i) if want[i][j] != 0]
        if len(n_off) > 3:
            kw, want, kind, sym_only = {'g': '1 ' * (n - 1) + '-1'}, [[S(0) if i != j else S(-1 if i == n - 1 else 1) for j in range(n)] for i in range(n)], 'string', False
    coords = None
    if need or (n and rng.random() < .4):
        pool = rng.choice([gen.NAMES, ['r', 'th', 'ph', 't', 's', 'k'], ['x_1', 'x_2', 'x_3', 'x_4', 'x_5', 'x_6']])
        cs = [Symbol(c, real=rng.random() < .9) for c in pool[:n]]
        coords = rng.choice([tuple, list])(cs)
        kw['coords'] = coords
        if need:
            names = ['%s_%s' % (arg, c) for c in cs]
    if coords is not None and rng.random() < .12 and n in (1, 2):
        kw['g'] = 'g'
        kind = 'functions'
    wedge = rng.choice([None, None, None, True, False])
    if wedge is False and (any(x.count('_') != 1 for x in names) or len({x.split('_')[0] for x in names}) != 1):
        wedge = None
    if wedge is not None:
        kw['wedge'] = wedge
    if rng.random() < .3:
        kw['sig'] = rng.choice(['e', 'm+', 'm-', n, rng.randint(0, n)])
    if rng.random() < .1:
        kw['Isq'] = rng.choice('+-')
    keep = str(kw.get('g'))
    built = rng.random() < .4
    req = 'Ga(%r, %s)' % (arg, kw)
    if built:
        t = Ga.build(arg, **kw)
        ga, bv = t[0], t[1:]
        rec.check(len(bv) == n, 'build', req, 'build', '%s returns %d vectors' % (req, len(bv)))
    else:
        ga = Ga(arg, **kw)
        bv = ga.mv()
    rec.check(str(kw.get('g')) == keep, 'metric-arg', req, 'metric-arg', '%s changed its metric argument' % req)
    rec.check([str(b) for b in ga.basis] == names and ga.n == n and len(set(ga.basis)) == n and all(not b.is_commutative for b in ga.basis), 'basis', req, 'basis',
              lambda: '%s has basis %s, expected %s' % (req, ga.basis, names))
    # metric
    if kind == 'functions':
        F = [[Function('g_%s_%s' % (coords[min(i, j)], coords[max(i, j)]))(*coords) for j in range(n)] for i in range(n)]
        ok = all(ga.g[i, j] == F[i][j] for i in range(n) for j in range(n))
        rec.check(ok, 'functions', req, 'functions', lambda: '%s has metric %s' % (req, ga.g))
        want = F
    else:
        G = ga.g
        ok = G.shape == (n, n) if n else True
        for i in range(n):
            for j in range(n):
                if want[i][j] is None:
                    ok = ok and bool(G[i, j].free_symbols or type(G[i, j]).__name__ == 'DotProductSymbol') and G[i, j] == G[j, i]
                else:
                    ok = ok and expand(G[i, j] - want[i][j]) == 0
        dots = [G[i, j] for i in range(n) for j in range(i, n) if want[i][j] is None]
        ok = ok and len(set(dots)) == len(dots)
        rec.check(ok, 'metric', req, 'metric', lambda: '%s has metric %s' % (req, G))
        if kind.startswith('string'):
            rec.event('string', req)
        rec.check(all(G[i, j] == G[j, i] for i in range(n) for j in range(i)), 'symmetric', req, 'symmetric', lambda: 'metric %s not symmetric' % G)
    orth = all(ga.g[i, j] == 0 for i in range(n) for j in range(n) if i != j)
    rec.check(ga.is_ortho == orth, 'ortho', req, 'ortho', 'is_ortho wrong for ' + req)
    if n and kind != 'functions' and any(not ga.g[i, j].is_number for i in range(n) for j in range(i)):
        # a general metric with symbols takes its signature from the hint
        h = kw.get('sig', 'e')
        pq = {'e': (n, 0), 'm+': (n - 1, 1), 'm-': (1, n - 1)}.get(h) or (h, n - h)
        rec.check(tuple(ga.sig) == pq, 'sig', req, 'sig', lambda: '%s has signature %s, hint %s' % (req, ga.sig, h))
        rec.check(ga.e_sq_sgn == ('-' if (n * (n - 1) // 2 + pq[1]) % 2 else '+'), 'sig', req + ' sign', 'sig-sign', lambda: '%s: sign of the squared pseudoscalar %s' % (req, ga.e_sq_sgn))
    # tables
    idx = [tuple(itertools.combinations(range(n), r)) for r in range(n + 1)]
    flat = [t for r in idx for t in r]
    rec.check([tuple(r) for r in ga.indexes] == idx and list(ga.indexes.flat) == flat, 'indexes', req, 'indexes', lambda: '%s indexes %s' % (req, list(ga.indexes)))
    B = list(ga.blades.flat)
    ok = len(B) == 2 ** n and len(set(B)) == 2 ** n and [len(r) for r in ga.blades] == [comb(n, r) for r in range(n + 1)] and [b for r in ga.blades for b in r] == B and B[0] == 1
    ok = ok and all(ga.indexes_to_blades_dict[t] == b and tuple(ga.indexes_to_blades_dict.inverse[b]) == t and ga.blades_to_grades_dict[b] == len(t) for t, b in zip(flat, B))
    ok = ok and list(B[1:n + 1]) == list(ga.basis)
    rec.check(ok, 'blades', req, 'blades', lambda: '%s blades %s' % (req, B))
    if wedge is not False:
        rec.check([str(b) for b in B[1:]] == ['^'.join(names[i] for i in t) for t in flat[1:]], 'blades', req + 'names', 'blade-names', lambda: '%s blade names %s' % (req, B))
    rec.check([[str(m) for m in r] for r in ga.mv_blades] == [[str(b) for b in r] for r in ga.blades] and list(ga.mv_basis) == list(ga.mv()), 'blades', req + 'mv', 'mv_blades', req)
    if orth:
        try:
            ga.bases
            rec.check(False, 'bases', req, 'bases', 'orthogonal algebra publishes bases ' + req)
        except ValueError:
            rec.event('bases', req)
    else:
        D = list(ga.bases.flat)
        ok = len(set(D)) == 2 ** n and all(ga.indexes_to_bases_dict[t] == b and tuple(ga.indexes_to_bases_dict.inverse[b]) == t and ga.bases_to_grades_dict[b] == len(t) for t, b in zip(flat, D))
        rec.check(ok, 'bases', req, 'bases', lambda: '%s bases %s' % (req, D))
    # coordinates
    if coords is None:
        rec.check(ga.coords is None, 'coords', req, 'coords', 'coords of ' + req)
        for f in (lambda: ga.grads(), lambda: ga.coord_vec):
            try:
                f()
                rec.check(False, 'coords', req + 'no', 'coords', 'gradient without coordinates ' + req)
            except ValueError:
                rec.event('coords', req + 'none')
    else:
        rec.check(list(ga.coords) == list(coords), 'coords', req, 'coords', lambda: 'coords %s of %s' % (ga.coords, req))
        rec.check(coeffs(ga.mv(ga.coord_vec)) == {1 << i: c for i, c in enumerate(coords)}, 'coordvec', req, 'coordvec', lambda: 'coord_vec %s' % ga.coord_vec)
    # basis vectors and their products
    env = num.Env(spec['seed'])
    w = monitor.World(rec, env)
    w.register(ga, [[ga.g[i, j] for j in range(n)] for i in range(n)])
    rec.check(len(bv) == n and all(coeffs(v) == {1 << i: 1} and v.Ga is ga and v.is_vector() for i, v in enumerate(bv)), 'vectors', req, 'vectors', lambda: '%s vectors %s' % (req, bv))
    for i in range(n):
        for j in range(i, n):
            wantij = env.num(want[i][j] if want[i][j] is not None else ga.g[i, j])
            w.judge('square', ga, [req, i, j], (bv[i] * bv[j] + bv[j] * bv[i]) / 2, ref.clean({0: wantij}), extra='%s e%d.e%d' % (req, i, j))
    w.judge('vectors', ga, [req, 'E'], ga.E(), {(1 << n) - 1: ref.Fraction(1)}, extra='E of ' + req)
    # a second algebra of the same request is another, equal-looking algebra
    if rng.random() < .5:
        hb = Ga(arg, **kw)
        rec.check(hb != ga and hb is not ga and hb.name != ga.name and [str(b) for b in hb.basis] == names and str(hb.g) == str(ga.g) and ga == ga and hash(ga) == hash(ga), 'instances', req, 'instances', 'instances of ' + req)


CATS = {'scalar': lambda n: [0], 'vector': lambda n: [1], 'bivector': lambda n: [2], 'grade2': lambda n: [2], 'pseudo': lambda n: [n], 'mv': lambda n: list(range(n + 1)),
        'even': lambda n: list(range(0, n + 1, 2)), 'spinor': lambda n: list(range(0, n + 1, 2)), 'odd': lambda n: list(range(1, n + 1, 2))}


def mvs(spec, rec, rng):
    from galgebra.ga import Ga
    from galgebra.mv import Mv
    n = rng.choice([1, 2, 2, 3, 3, 3, 4])
    arg, names, need = basis(rng, n)
    kw = {'g': [rng.choice([1, -1, 2, 0]) for _ in range(n)]}
    if rng.random() < .3 and n in (2, 3):
        kw['g'] = [[rng.choice([1, 2]) if i == j else (1 if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)]
    coords = None
    if need or rng.random() < .5:
        coords = tuple(Symbol(c, real=True) for c in rng.choice([gen.NAMES, ['r', 'th', 'ph', 'z'], ['x_1', 'x_2', 'x_3', 'x_4'], ['a', 'b', 'ab', 'c']])[:n])
        kw['coords'] = coords
    if rng.random() < .2 and arg is not None and '*' in arg:
        kw['wedge'] = False
    ga = Ga(arg, **kw)
    req0 = 'Ga(%r, %s)' % (arg, kw)
    flat = [t for r in range(n + 1) for t in itertools.combinations(range(n), r)]
    byg = {r: [ref.mask(t) for t in itertools.combinations(range(n), r)] for r in range(n + 1)}

    def judge_named(A, nm, grades, f, kind, req):
        """f: None constant, else tuple of function arguments"""
        c = coeffs(A)
        want = {m for r in grades for m in byg[r]}
        ok = set(c) == want and len(set(c.values())) == len(c) and A.Ga is ga
        for m, x in c.items():
            if f is None:
                ok = ok and isinstance(x, Symbol) and x.is_real and x.is_commutative and str(x).startswith(nm)
            else:
                ok = ok and isinstance(x, AppliedUndef) and tuple(x.args) == tuple(f) and str(x.func).startswith(nm)
        rec.check(ok, kind, '%s %s' % (req0, req), kind, lambda: '%s in %s gives %s' % (req, req0, c))
        rec.check(A.title == nm, 'title', req, 'title', lambda: '%s has title %s' % (req, A.title))
        # derivatives of a field act on every coefficient
        return c

    for _ in range(7):
        nm = rng.choice(['A', 'B', 'F', 'X_1', 'alpha', 'v', 'psi', 'e'])
        form = rng.choice(['cat', 'cat', 'cat', 'grade', 'int', 'coefs', 'coefs', 'expr', 'copy', 'names', 'zero', 'scalar'])
        fkw, f = {}, None
        r = rng.random()
        if r < .2 and coords:
            fkw, f = {'f': True}, coords
        elif r < .35:
            f = tuple(Symbol(s, real=True) for s in rng.sample('stu', rng.randint(1, 2)))
            fkw = {'f': f}
        elif r < .45:
            fkw = {'f': False}
        via = rng.choice([lambda *a, **k: ga.mv(*a, **k), lambda *a, **k: Mv(*a, ga=ga, **k)])
        if form == 'cat':
            cat = rng.choice(sorted(CATS))
            gs = CATS[cat](n)
            if max(gs + [0]) > n:
                try:
                    via(nm, cat, **fkw)
                    rec.check(False, 'reject', cat + str(n), 'reject', '%s of a %d-dimensional algebra' % (cat, n))
                except (ValueError, IndexError):
                    rec.event('reject', cat + str(n))
                continue
            A = via(nm, cat, **fkw)
            judge_named(A, nm, gs, f, 'field' if f else 'cat-' + cat, 'mv(%r, %r, %s)' % (nm, cat, fkw))
        elif form == 'grade':
            r = rng.randint(0, n)
            A = via(nm, 'grade', r, **fkw)
            judge_named(A, nm, [r], f, 'cat-grade', 'mv(%r, grade, %d, %s)' % (nm, r, fkw))
        elif form == 'int':
            r = rng.randint(0, n)
            A = via(nm, r, **fkw)
            judge_named(A, nm, [r], f, 'cat-int', 'mv(%r, %d, %s)' % (nm, r, fkw))
        elif form == 'coefs':
            cat, r = rng.choice([('vector', 1), ('bivector', 2), ('grade2', 2), ('pseudo', n), ('grade', None), ('int', None)])
            if r is None:
                r = rng.randint(1, n)
            if r > n:
                continue
            k = comb(n, r)
            cs = [gen.parse(gen.coef(rng, rng.choice(['int', 'rat', 'sym', 'poly', 'func']))) for _ in range(k if rng.random() < .7 else rng.randint(0, k))]
            cs = [int(c) if c.is_Integer and rng.random() < .5 else c for c in cs]
            cs = [0 if rng.random() < .15 else c for c in cs]
            seq = rng.choice([list, tuple])(cs)
            A = via(seq, 'grade', r) if cat == 'grade' else via(seq, r) if cat == 'int' else via(seq, cat)
            want = {m: S(c) for m, c in zip(byg[r], cs) if c != 0}
            got = coeffs(A)
            rec.check(set(got) == set(want) and all(expand(got[m] - want[m]) == 0 for m in want), 'coeffs', '%s %s %s' % (cat, r, seq), 'coeffs', lambda: 'mv(%s, %s %s) is %s' % (seq, cat, r, A))
            rec.check(A.title is None and list(seq) == cs, 'title', str(seq), 'title', 'title of an unnamed multivector')
        elif form == 'expr':
            A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym', 'poly')))
            B = via(A.obj)
            rec.check(coeffs(B) == coeffs(A), 'expr', str(A.obj), 'expr', lambda: 'mv(%s) is %s' % (A.obj, B))
        elif form == 'copy':
            A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym', 'poly')))
            A = rng.choice([A, A.base_rep()])
            B = via(A)
            rec.check(B is not A and B == A and coeffs(B.blade_rep()) == coeffs(A.blade_rep()), 'copy', str(A.obj), 'copy', lambda: 'copy of %s is %s' % (A.obj, B))
        elif form == 'zero':
            rec.check(Mv(ga=ga).obj == 0 and Mv(0, ga=ga) == 0 and ga.mv([], 'vector').obj == 0, 'expr', 'zero', 'zero', 'zero multivector')
        elif form == 'scalar':
            s = rng.choice([3, -2, S.Half, gen.parse('a+b'), gen.parse('sin(a)')])
            for A in (via(s), via(s, 'scalar'), via(s, 0)):
                rec.check(coeffs(A) == {0: expand(S(s))} and A.is_scalar(), 'expr', 'scalar %s' % s, 'scalar', lambda: 'scalar %s gives %s' % (s, A))
        else:
            k = rng.randint(2, 3)
            nms = rng.sample(['A', 'B', 'C', 'D'], k)
            r = rng.random()
            if r < .4:
                cat = rng.choice([c for c in CATS if max(CATS[c](n) + [0]) <= n])
                out = ga.mv(' '.join(nms), cat, **fkw)
                gl = [CATS[cat](n)] * k
            elif r < .7:
                cats = [rng.choice([c for c in sorted(CATS) if max(CATS[c](n) + [0]) <= n]) for _ in nms]
                out = ga.mv(' '.join(nms), ' '.join(cats), **fkw)
                gl = [CATS[c](n) for c in cats]
            else:
                g_ = rng.randint(0, n)
                out = ga.mv(' '.join(nms), 'grade', g_, **fkw)
                gl = [[g_]] * k
            rec.check(isinstance(out, tuple) and len(out) == k, 'names', '%s' % nms, 'names', 'several names')
            for A, nm, gs in zip(out, nms, gl):
                judge_named(A, nm, gs, f, 'names', 'mv(%s, ..., %s)' % (nms, fkw))


def cl(spec, rec, rng):
    from galgebra import interop
    from galgebra.ga import Ga
    from galgebra.interop import kingdon
    while True:
        p, q, r = rng.randint(0, 4), rng.randint(0, 3), rng.randint(0, 2)
        if 0 < p + q + r <= 5:
            break
    if rng.random() < .2:       # past the last dimension with one-digit indices
        q, r = rng.randint(0, 3), rng.choice([0, 0, 1, 2])
        p = rng.randint(6, 13) - q - r
    n = p + q + r
    for fam in rng.sample(['interop', 'kingdon', 'interop'], 3):
        kw = {}
        root = 'e'
        if rng.random() < .3:
            root = kw['root'] = rng.choice(['f', 'gamma'])
        if rng.random() < .3:
            kw['coords'] = tuple(Symbol(c, real=True) for c in (gen.NAMES[:n] if n <= 5 else ['x%d' % i for i in range(n)]))
        if rng.random() < .2:
            kw['wedge'] = False
        Cl = interop.Cl if fam == 'interop' else kingdon.Cl
        Ga.dual_mode(rng.choice(Ga.dual_mode_lst))
        args = (p, q, r) if r or rng.random() < .5 else (p, q) if q or rng.random() < .5 else (p,)
        t = Cl(*args, **kw)
        req = '%s.Cl%s %s' % (fam, args, kw)
        ga, bv = t[0], t[1:]
        first = 1 if fam == 'interop' else 0
        kind = 'cl' if fam == 'interop' else 'cl-kingdon'
        rec.check(len(bv) == n and ga.n == n and [str(v) for v in bv] == ['%s_%d' % (root, i + first) for i in range(n)], kind, req, kind, lambda: '%s gives %s' % (req, bv))
        sq = [1] * p + [-1] * q + [0] * r
        ok = all((bv[i] * bv[j] + bv[j] * bv[i]).obj == (2 * sq[i] if i == j else 0) for i in range(n) for j in range(n))
        rec.check(ok, kind, req + 'sq', kind, lambda: '%s has squares %s' % (req, [str(v * v) for v in bv]))
        rec.check(ga.coords is None if 'coords' not in kw else list(ga.coords) == list(kw['coords']), kind, req + 'c', kind, req + ' coords')
        mode = 'I+' if fam == 'interop' else 'Iinv+'
        rec.check(Ga.dual_mode_value == mode, 'cl-dual', req, 'cl-dual', lambda: '%s leaves dual mode %s' % (req, Ga.dual_mode_value))
        if r == 0 and n <= 5:
            w = monitor.World(rec, num.Env(spec['seed']))
            w.register(ga, [[S(sq[i]) if i == j else S.Zero for j in range(n)] for i in range(n)])
            C = w.cl(ga)
            A = gen.mk(ga, gen.mvspec(rng, n, ('int',)))
            E = {(1 << n) - 1: ref.Fraction(1)}
            Ei = C.reverse_trick_inverse(E)
            # the two conventions: dual by multiplication with I on the left of the name
            a = w.val(A, ga)
            want = C.gp(a, E) if fam == 'interop' else C.gp(a, Ei)
            if fam == 'interop':
                want = C.gp(E, a) if False else C.gp(a, E)
            w.judge('cl-dual', ga, [req, a], A.dual(), want, extra=req)
    Ga.dual_mode('I+')


BADMV = [
    ('negative grade', lambda ga, n: ga.mv('A', 'grade', -1)), ('negative int', lambda ga, n: ga.mv('A', -2)), ('too high', lambda ga, n: ga.mv('A', 'grade', n + 1)),
    ('too high int', lambda ga, n: ga.mv('A', n + 1)), ('category', lambda ga, n: ga.mv('A', 'vectors')), ('category2', lambda ga, n: ga.mv('A', '')), ('no category', lambda ga, n: ga.mv('A')),
    ('keyword', lambda ga, n: ga.mv('A', 'vector', g=1)), ('keyword2', lambda ga, n: ga.mv('A', 'mv', F=True)), ('keyword expr', lambda ga, n: ga.mv(3, f=True)),
    ('too many', lambda ga, n: ga.mv([1] * (n + 1), 'vector')), ('too many pseudo', lambda ga, n: ga.mv([1, 2], 'pseudo')), ('list mv', lambda ga, n: ga.mv([1], 'mv')),
    ('list even', lambda ga, n: ga.mv([1], 'even')), ('list odd', lambda ga, n: ga.mv([1], 'odd')), ('number vector', lambda ga, n: ga.mv(5, 'vector')), ('f with list', lambda ga, n: ga.mv([1], 'vector', f=True)),
    ('missing grade', lambda ga, n: ga.mv('A', 'grade')), ('extra', lambda ga, n: ga.mv('A', 'vector', 1)), ('float grade', lambda ga, n: ga.mv('A', 1.5)), ('names', lambda ga, n: ga.mv('A B', 'vector mv even')),
    ('names2', lambda ga, n: ga.mv('A B C', 'vector mv')), ('names bad', lambda ga, n: ga.mv('A B', 'vector nope')), ('string grade', lambda ga, n: ga.mv('A', 'grade', '1')),
    ('too many grade', lambda ga, n: ga.mv([1] * (comb(n, n // 2) + 1), 'grade', n // 2) if n // 2 else ga.mv([1, 2], 'grade', 0)), ('no ga', lambda ga, n: type(ga.mv(0))(3)),
]


def _ga(*a, **k):
    from galgebra.ga import Ga
    return Ga(*a, **k)


BADALG = [
    ('basis type', lambda: _ga(3, g=[1, 1])), ('basis list', lambda: _ga(['a', 'b'], g=[1, 1])), ('root only', lambda: _ga('e', g=[1, 1])),
    ('short metric', lambda: _ga('a b c', g=[1, 1])), ('small matrix', lambda: _ga('a b c', g=Matrix([[1, 0], [0, 1]]))),
    ('flat matrix', lambda: _ga('a b', g=Matrix([[1, 1]]))), ('string rank', lambda: _ga('a b', g='1 1 1')), ('string short', lambda: _ga('a b', g='1')), ('string square', lambda: _ga('a b', g='1 0,0')),
    ('string rows', lambda: _ga('a b c', g='1 0,0 1')), ('string junk', lambda: _ga('a b', g='1 x')), ('keyword', lambda: _ga('a b', g=[1, 1], bad=3)), ('few coords', lambda: _ga('a b', g=[1, 1], coords=(Symbol('x'),))),
    ('many coords', lambda: _ga('a b', g=[1, 1], coords=tuple(Symbol(s) for s in 'xyz'))), ('index', lambda: _ga('e*x', g=[1])), ('norm', lambda: _ga('a b', g=[[2, 1], [1, 2]], norm=True, coords=tuple(Symbol(s) for s in 'xy'))),
    ('cl 0', lambda: __import__('galgebra.interop', fromlist=['Cl']).Cl(0)), ('cl neg', lambda: __import__('galgebra.interop', fromlist=['Cl']).Cl(-1, 3)),
    ('cl neg3', lambda: __import__('galgebra.interop', fromlist=['Cl']).Cl(2, 2, -1)), ('kingdon 0', lambda: __import__('galgebra.interop.kingdon', fromlist=['Cl']).Cl(0, 0, 0)), ('kingdon neg', lambda: __import__('galgebra.interop.kingdon', fromlist=['Cl']).Cl(-2, 3)),
    ('sig large', lambda: _ga('a b', sig=3)), ('sig word', lambda: _ga('a b', sig='minkowski')), ('sig type', lambda: _ga('a b c', sig=(2, 1))),
    ('X without coords', lambda: _ga('a b', X=[Symbol('x'), Symbol('y')])),
    ('dual', lambda: _ga('a b', g=[1, 1]).dual_mode('II')),
]


def bad(spec, rec, rng):
    from galgebra.ga import Ga
    n = rng.randint(1, 4)
    ga = Ga(gen.basis_string(rng, n), g=[rng.choice([1, -1]) for _ in range(n)], **({'coords': tuple(Symbol(c, real=True) for c in gen.NAMES[:n])} if rng.random() < .5 else {}))
    for nm, f in rng.sample(BADMV, 8):
        try:
            r = f(ga, n)
            rec.check(False, 'reject', '%s %d' % (nm, n), 'reject:' + nm.replace(' ', '-'), lambda: 'malformed request (%s, n=%d) returns %s' % (nm, n, r))
        except Exception:   # noqa: BLE001 - any error is a rejection
            rec.event('reject', '%s %d' % (nm, n))
        # a good request still works afterwards
        v = ga.mv('v', 'vector')
        rec.check(set(coeffs(v)) == {1 << i for i in range(n)}, 'cat-vector', 'after ' + nm, 'after-reject', lambda: 'after %s a vector is %s' % (nm, v))
    for nm, f in rng.sample(BADALG, 6):
        try:
            r = f()
            rec.check(False, 'reject-alg', nm, 'reject-alg:' + nm.replace(' ', '-'), lambda: 'malformed request (%s) returns %s' % (nm, r))
        except Exception:   # noqa: BLE001
            rec.event('reject-alg', nm)
