"""C16 linear transformations act as outermorphisms."""
from sympy import ImmutableMatrix, Matrix, S, Symbol, sympify

from .. import gen, monitor, num, ref, workload

PROP = 'C16'
RULE = ('Linear transformations built in every constructor form (nested list, list of images, matrix, dictionary with symbol or multivector keys, function, versor, '
        'symbolic name in modes g/s/a) over random metrics, then random programs of +, -, scalar *, composition, adj, inv; after each step matrix(), application to '
        'vectors/multivectors/scalars/expressions, det, tr, is_singular are compared with the exact linear algebra of the images. Non-linear and non-vector functions must be '
        'rejected. distinct_nontrivial counts distinct (query, dimension, images, argument).')
ASSUMPTIONS = ['det, tr, adj, inv and is_singular are claimed for a nonsingular metric']
CASE_TIMEOUT = {'quick': 40, 'thorough': 240}
REQUIRED = ['apply', 'apply-obj', 'matrix', 'det', 'tr', 'adj', 'inv', 'inv-singular', 'singular-true', 'singular-false', 'self-adjoint', 'anti-self-adjoint',
            'reject', 'form-.*', 'op-add', 'op-sub', 'op-mul', 'op-scale', 'adj-def', 'arg-kept']
KINDS = ('euclid', 'ortho', 'nonsing', 'nonsing', 'null', 'symortho', 'degen', 'symnon')
FORMS = ('nested', 'images', 'matrix', 'immatrix', 'dict', 'dictmv', 'dictpart', 'func', 'versor')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('form', 170), ('prog', 130), ('big', 24), ('sym', 36), ('reject', 36), ('singular', 60)) for i in range(m * k)]


def matmul(A, B):
    n = len(A)
    return [[num_sum(ref.nmul(A[i][k], B[k][j]) for k in range(n)) for j in range(n)] for i in range(n)]


def num_sum(it):
    t = ref.Fraction(0)
    for x in it:
        t = ref.nadd(t, x)
    return t


def tr(A):
    return [list(r) for r in zip(*A)]


def mdet(A):
    n = len(A)
    if n == 0:
        return ref.Fraction(1)
    if n == 1:
        return A[0][0]
    t = ref.Fraction(0)
    for j in range(n):
        if A[0][j] == 0:
            continue
        sub = [r[:j] + r[j + 1:] for r in A[1:]]
        t = ref.nadd(t, ref.nmul(A[0][j] if j % 2 == 0 else ref.nmul(-1, A[0][j]), mdet(sub)))
    return t


def cols_of(M):
    n = len(M)
    return [[M[i][j] for i in range(n)] for j in range(n)]


class Map:
    """A library transformation and the exact matrix it must have."""

    def __init__(self, L, M, desc):
        self.L, self.M, self.desc = L, M, desc


def entry(rng, sym):
    if rng.random() < .25:
        return '0'
    return gen.coef(rng, rng.choice(['int', 'int', 'rat', 'sym', 'poly'] if sym else ['int', 'rat']))


def entries(rng, n, sym):
    E = [[entry(rng, sym) for _ in range(n)] for _ in range(n)]
    return E


def value(E, env):
    return [[env.num(gen.parse(x)) for x in r] for r in E]


def construct(rng, w, ga, form, sym):
    """Returns a Map."""
    n = ga.n
    env = w.env
    e = ga.mv()
    C = w.cl(ga)
    E = entries(rng, n, sym)
    P = [[gen.parse(x) for x in r] for r in E]        # P[i][j]: row i, column j
    M = value(E, env)
    image = lambda j: sum((P[i][j] * e[i] for i in range(n)), ga.mv(0))
    desc = '%s %s' % (form, E)
    if form == 'nested':                                # lists are the images
        arg = [[P[i][j] if not P[i][j].is_Integer or rng.random() < .5 else int(P[i][j]) for i in range(n)] for j in range(n)]
        keep = str(arg)
        L = ga.lt(arg)
        w.rec.check(str(arg) == keep, 'arg-kept', desc, 'arg-changed', lambda: 'argument list changed: ' + desc)
    elif form == 'images':
        arg = [image(j) if rng.random() < .8 else image(j).base_rep() for j in range(n)]
        L = ga.lt(arg)
    elif form in ('matrix', 'immatrix'):
        X = Matrix(n, n, lambda i, j: P[i][j])
        arg = X if form == 'matrix' else ImmutableMatrix(X)
        L = ga.lt(arg)
        if form == 'matrix':
            X[0, 0] = X[0, 0] + 77                      # the transformation must not follow its argument
    elif form in ('dict', 'dictmv', 'dictpart'):
        ks = list(range(n))
        if form == 'dictpart':
            ks = rng.sample(ks, rng.randint(1, n))
            M = [[M[i][j] if j in ks else ref.Fraction(0) for j in range(n)] for i in range(n)]
        rng.shuffle(ks)
        arg = {}
        for j in ks:
            key = e[j] if form == 'dictmv' and rng.random() < .7 else ga.basis[j]
            img = image(j) if rng.random() < .5 else image(j).obj
            arg[key] = img
        keep = [(str(k), str(v)) for k, v in arg.items()]
        L = ga.lt(arg)
        w.rec.check([(str(k), str(v)) for k, v in arg.items()] == keep, 'arg-kept', desc, 'arg-changed', lambda: 'argument dict changed: ' + desc)
    elif form == 'func':
        k = rng.randrange(5)
        a, b = [gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym') if sym else ('int',), style='vector')) for _ in range(2)]
        B = gen.mk(ga, gen.mvspec(rng, n, ('int',), style='sparse')).get_grade(2) if n > 1 else ga.mv(0)
        s = gen.parse(rng.choice(['2', 'c', '-1/3', '0']))
        av, bv, Bv = w.val(a, ga), w.val(b, ga), w.val(B, ga)
        fn = {0: lambda x: (x | a) * b + s * x,
              1: lambda x: (x < B) - s * x,
              2: lambda x: a * x * a,
              3: lambda x: ((x ^ a) > b) + (x | b) * a,
              4: lambda x: (x | b) * a}[k]
        sv = env.num(s)
        fr = {0: lambda x: ref.add(C.gp(C.hestenes(x, av), bv), ref.smul(sv, x)),
              1: lambda x: ref.sub(C.lcont(x, Bv), ref.smul(sv, x)),
              2: lambda x: C.gp(C.gp(av, x), av),
              3: lambda x: ref.add(C.rcont(C.wedge(x, av), bv), C.gp(C.hestenes(x, bv), av)),
              4: lambda x: C.gp(C.hestenes(x, bv), av)}[k]
        L = ga.lt(fn)
        M = tr([[fr({1 << j: ref.Fraction(1)}).get(1 << i, ref.Fraction(0)) for i in range(n)] for j in range(n)])
        desc = 'func%d a=%s b=%s B=%s s=%s' % (k, a.obj, b.obj, B.obj, s)
    else:
        V = ga.mv(gen.parse(rng.choice(['1', '2', '-1/2'])))
        for _ in range(rng.randint(0, 3)):
            u = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat'), style='vector'))
            uv = w.val(u, ga)
            if not ref.close(ref.scalar(C.gp(uv, uv)), 0):
                V = V * u
        v = w.val(V, ga)
        if all(len(v) == 1 and k == 0 for k in v) and n and rng.random() < .5:
            pass
        q = ref.scalar(C.gp(v, ref.rev(v)))
        inv = ref.smul(ref.ndiv(1, q), ref.rev(v))
        if rng.random() < .2:
            V = V.base_rep()
        L = ga.lt(V)
        M = tr([[C.gp(C.gp(ref.invol(v), {1 << j: ref.Fraction(1)}), inv).get(1 << i, ref.Fraction(0)) for i in range(n)] for j in range(n)])
        desc = 'versor %s' % (V.obj,)
    return Map(L, M, desc)


def judge_map(rng, w, ga, X, kind, deep=True):
    """matrix() and application of one transformation against its expected matrix."""
    n, rec, C = ga.n, w.rec, w.cl(ga)
    cols = cols_of(X.M)
    key = '%s %s' % (n, X.M)
    jobs = []

    def matrix():
        Mx = X.L.matrix()
        rec.event('matrix', key)
        bad = tuple(Mx.shape) != (n, n) or any(not ref.close(w.env.num(Mx[i, j]), X.M[i][j]) for i in range(n) for j in range(n))
        if bad:
            rec.violate(kind + ':matrix', 'matrix() of %s is %s, expected values %s' % (X.desc, Mx, X.M))

    def apply():
        A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat', 'sym')))
        r = rng.random()
        if r < .15:
            A = A.base_rep()
        a = w.val(A, ga)
        want = C.outermorphism(cols, a)
        if r > .8:
            w.judge('apply-obj', ga, [key, a], ga.mv(X.L(A, obj=True)), want, extra='%s L=%s' % (kind, X.desc))
        elif r > .7:
            w.judge('apply', ga, [key, a, 'expr'], X.L(A.blade_rep().obj), want, extra='%s L=%s' % (kind, X.desc))
        else:
            w.judge('apply', ga, [key, a], X.L(A), want, extra='%s L=%s on %s' % (kind, X.desc, A.obj))

    def basis():
        j = rng.randrange(n)
        w.judge('apply', ga, [key, j], X.L(ga.mv()[j]), ref.clean({1 << i: X.M[i][j] for i in range(n)}), extra='%s image of e%d, L=%s' % (kind, j, X.desc))

    def scalar():
        s = gen.as_py_scalar(rng, rng.choice(['3', 'a', '1/2', '0']))
        w.judge('apply', ga, [key, str(s)], X.L(s), ref.clean({0: w.env.num(s)}), extra='%s scalar' % kind)

    jobs = [matrix, apply, basis, apply] + ([matrix, scalar] if rng.random() < .3 else [])
    rng.shuffle(jobs)
    for j in jobs:
        j()


def judge_invariants(rng, w, ga, X, sym):
    n, rec, C = ga.n, w.rec, w.cl(ga)
    key = '%s %s' % (n, X.M)
    d = mdet(X.M)
    jobs = []

    def det():
        w.judge('det', ga, [key], X.L.det(), ref.clean({0: d}), extra=X.desc)

    def trace():
        w.judge('tr', ga, [key], X.L.tr(), ref.clean({0: num_sum(X.M[i][i] for i in range(n))}), extra=X.desc)

    def adj():
        g, gi = C.g, ref.matinv(C.g)
        A = X.L.adj()
        Y = Map(A, matmul(matmul(gi, tr(X.M)), g), 'adj of ' + X.desc)
        rec.event('adj', key)
        judge_map(rng, w, ga, Y, 'adj')
        # defining relation, through the library's own products
        x, y = [gen.mk(ga, gen.mvspec(rng, n, ('int',), style='vector')) for _ in range(2)]
        L = w.val(x | X.L(y), ga)
        w.judge('adj-def', ga, [key, w.val(x, ga), w.val(y, ga)], A(x) | y, L, extra=X.desc)

    def inv():
        if ref.close(d, 0):
            try:
                X.L.inv()
                ok = False
            except ValueError:
                ok = True
            rec.check(ok, 'inv-singular', key, 'inv-singular', lambda: 'inv() of the singular %s returned' % X.desc)
            return
        I = X.L.inv()
        rec.event('inv', key)
        judge_map(rng, w, ga, Map(I, ref.matinv(X.M), 'inv of ' + X.desc), 'inv')

    def singular():
        want = ref.close(d, 0)
        got = X.L.is_singular()
        rec.check(bool(got) is want, 'singular-true' if want else 'singular-false', key, 'is_singular',
                  lambda: 'is_singular of %s (det %s) is %s' % (X.desc, d, got))
    jobs = [det, trace, adj, inv, singular]
    rng.shuffle(jobs)
    for j in jobs[:3 if (sym and n > 2) else 5]:
        j()


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    kinds = KINDS if fam in ('form', 'reject') else KINDS[:6]
    big = fam == 'big'
    if big:
        fam = 'prog'
    a = gen.algebra(rng, kinds[:5] if big else kinds, nmax=4 if fam in ('form', 'reject') else 5 if big else 3, nmin=4 if big else 1, coords=True if fam == 'sym' else None, gsym=.08 if fam != 'sym' else 0)
    if a['n'] > 2:
        a.pop('gsym', None)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, [], a)
    w.env.wide = True
    C = w.cl(ga)
    nonsing = not ref.close(mdet(C.g), 0)
    sym = rng.random() < .35 and n <= 3

    if fam == 'form':
        form = FORMS[int(spec['seed'].split('.')[1]) % len(FORMS)]
        if form == 'versor' and not nonsing and a['kind'] == 'symnon':
            form = 'dict'
        X = construct(rng, w, ga, form, sym and a['kind'] not in ('symortho', 'symnon') or form == 'nested')
        rec.event('form-' + form, X.desc)
        for _ in range(2):
            judge_map(rng, w, ga, X, form)
        if nonsing and n <= 3:
            judge_invariants(rng, w, ga, X, sym)
    elif fam == 'prog':
        forms = [f for f in FORMS if f != 'versor'] if sym else FORMS
        regs = [construct(rng, w, ga, rng.choice(forms), sym) for _ in range(3)]
        for step in range(5):
            X, Y = rng.choice(regs), rng.choice(regs)
            op = rng.choice(['add', 'sub', 'mul', 'mul', 'scale', 'rscale', 'adj', 'inv'])
            if len(X.desc) + len(Y.desc) > 900:
                continue
            if op == 'add':
                Z = Map(X.L + Y.L, [[ref.nadd(p, q) for p, q in zip(r, t)] for r, t in zip(X.M, Y.M)], '(%s + %s)' % (X.desc, Y.desc))
            elif op == 'sub':
                Z = Map(X.L - Y.L, [[ref.nadd(p, ref.nmul(-1, q)) for p, q in zip(r, t)] for r, t in zip(X.M, Y.M)], '(%s - %s)' % (X.desc, Y.desc))
            elif op == 'mul':
                Z = Map(X.L * Y.L, matmul(X.M, Y.M), '(%s * %s)' % (X.desc, Y.desc))
            elif op in ('scale', 'rscale'):
                s = gen.as_py_scalar(rng, gen.scalar_spec(rng))
                sv = w.env.num(s)
                Z = Map(s * X.L if op == 'scale' else X.L * s, [[ref.nmul(sv, p) for p in r] for r in X.M], '(%s . %s)' % (s, X.desc))
                op = 'scale'
            elif op == 'adj' and nonsing:
                Z = Map(X.L.adj(), matmul(matmul(ref.matinv(C.g), tr(X.M)), C.g), 'adj' + X.desc)
            elif op == 'inv' and nonsing and not sym and not ref.close(mdet(X.M), 0):
                Z = Map(X.L.inv(), ref.matinv(X.M), 'inv' + X.desc)
            else:
                continue
            rec.event('op-' + op, '%s %s' % (n, Z.M))
            judge_map(rng, w, ga, Z, 'op-' + op)
            regs.append(Z)
        for X in regs[:3]:       # operands unchanged
            judge_map(rng, w, ga, X, 'operand')
        if nonsing and (n <= 3 or big and n == 4):
            judge_invariants(rng, w, ga, rng.choice([x for x in regs if len(x.desc) < 500] or regs[:1]), sym)
    elif fam == 'sym':
        mode = rng.choice(['g', 's', 'a'])
        if n == 1 and mode == 'a':
            mode = 's'
        f = rng.random() < .35
        name = rng.choice(['f', 'T', 'A'])
        L = ga.lt(name, mode=mode, f=f)
        Mx = L.matrix()
        atoms = set()
        for x in Mx:
            atoms |= {t for t in w.env.subs_map(x) if str(t).lstrip('{').startswith(name)}
        cnt = {'g': n * n, 's': n * (n + 1) // 2, 'a': n * (n - 1) // 2}[mode]
        rec.check(len(atoms) == cnt, 'sym-count', '%s%s%s' % (n, mode, f), 'sym-count',
                  lambda: 'symbolic %s transformation in dim %d has %d parameters %s, expected %d' % (mode, n, len(atoms), atoms, cnt))
        M = [[w.env.num(Mx[i, j]) for j in range(n)] for i in range(n)]
        X = Map(L, M, 'lt(%r, mode=%r, f=%s)' % (name, mode, f))
        judge_map(rng, w, ga, X, 'sym')
        if mode != 'g':
            gM = matmul(C.g, M)
            sg = 1 if mode == 's' else -1
            kind = 'self-adjoint' if mode == 's' else 'anti-self-adjoint'
            for i in range(n):
                for j in range(n):
                    rec.check(ref.close(gM[i][j], ref.nmul(sg, gM[j][i])), kind, '%s %d%d' % (M, i, j), kind, lambda: X.desc + ' is not ' + kind)
            if nonsing:
                A = L.adj()
                judge_map(rng, w, ga, Map(A, [[ref.nmul(sg, p) for p in r] for r in M], 'adj ' + X.desc), kind)
        elif nonsing and n <= 2:
            judge_invariants(rng, w, ga, X, True)
        w.judge('tr', ga, [str(M)], L.tr(), ref.clean({0: num_sum(M[i][i] for i in range(n))}), extra=X.desc)
    elif fam == 'reject':
        e = ga.mv()
        u = gen.mk(ga, gen.mvspec(rng, n, ('int',), style='vector'))
        if w.val(u, ga) == {}:
            u = e[0]
        bad = {'square': lambda x: x * x + 0 * u, 'affine': lambda x: x + u, 'scalar': lambda x: x + 1, 'product': lambda x: x * u + 2 * x,
               'wedge': lambda x: x ^ u if n > 1 else x + 1, 'cubic': lambda x: (x | x) * x, 'const': lambda x: u}
        for nm, f in bad.items():
            if nm == 'square' and all(ref.close(x, 0) for r in C.g for x in r):
                continue
            if nm in ('cubic', 'product') and all(ref.close(x, 0) for r in C.g for x in r):
                continue
            try:
                L = ga.lt(f)
                ok = False
            except (ValueError, TypeError):
                ok = True
            rec.check(ok, 'reject', '%s %s %s' % (nm, n, u.obj), 'accepted-' + nm, lambda: 'function %s of dim %d, u=%s accepted' % (nm, n, u.obj))
        # a vector that is not a versor, an unsupported type
        for nm, arg in (('non-versor', e[0] + ga.mv(1)), ('int', 3)):
            if nm == 'non-versor':
                v = w.val(arg, ga)
                from .c10 import ref_versor
                if ref_versor(C, v):
                    continue
            try:
                ga.lt(arg)
                ok = False
            except (ValueError, TypeError):
                ok = True
            rec.check(ok, 'reject', '%s %s' % (nm, n), 'accepted-' + nm, lambda: '%s accepted' % nm)
    else:
        if not nonsing:
            return
        # singular by construction, entries arranged so that the determinant needs expanding
        r = rng.random()
        if r < .5 and n > 1:
            c1 = [gen.parse(entry(rng, True)) for _ in range(n)]
            k = gen.parse(rng.choice(['a+1', '2', 'b', '-1', '1/(1+b**2)']))
            ones = ['1', '1', 'sin(b)**2+cos(b)**2', '(a**2-1)/(a-1)-a', 'cos(2*b)+2*sin(b)**2'] if n == 2 or rng.random() < .3 else ['1']
            cs = [list(c1)]
            cs.append([((k * x).expand() if rng.random() < .5 else k * x) * gen.parse(rng.choice(ones)) for x in c1])
            while len(cs) < n:
                cs.append([gen.parse(entry(rng, True)) for _ in range(n)])
            rng.shuffle(cs)
        else:
            cs = [[gen.parse(entry(rng, False)) for _ in range(n)] for _ in range(n)]
        L = ga.lt(Matrix(n, n, lambda i, j: cs[j][i]))
        M = tr([[w.env.num(x) for x in c] for c in cs])
        X = Map(L, M, 'singular test %s' % cs)
        judge_invariants(rng, w, ga, X, False)
