"""C17 multilinear transformations."""
import itertools

from sympy import S, Symbol, expand

from .. import gen, geo, monitor, num, ref, workload

PROP = 'C17'
RULE = ('Multilinear maps of rank 1 to 4 from functions (scalar and multivector valued), component expressions, names, vectors and linear transformations, in random metrics and after '
        'random histories of other multilinear maps in the same and in like-named algebras; evaluation on random vectors (also on vectors named like the slots), sums, '
        'differences, scalar and slot-chaining products, contraction, slot gradients and covariant derivatives compared with the reference multilinear forms. '
        'distinct_nontrivial counts distinct (query, dimension, map, arguments).')
ASSUMPTIONS = ['^ and | on multilinear maps are claimed for multivector-valued ones', 'contraction, slot gradient and covariant derivative are claimed for scalar-valued maps',
               'contraction and slot gradient need a nonsingular metric']
REQUIRED = ['eval-func', 'eval-name', 'eval-expr', 'eval-vec', 'eval-lt', 'add', 'sub', 'chain.', 'scale', 'contract', 'pdiff.*', 'cderiv', 'reject', 'again', 'comp']
CASE_TIMEOUT = {'quick': 20, 'thorough': 240}
KINDS = ('euclid', 'ortho', 'nonsing', 'nonsing', 'null', 'symortho', 'degen', 'nonortho')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('eval', 150), ('prog', 120), ('contract', 80)) for i in range(m * k)]
    S_ = geo.systems_cached()
    for i in range(k):
        for s in range(-2, len(S_)):
            if s >= 0 and (S_[s]['big'] or S_[s]['n'] > 3):
                continue
            out.append({'family': 'cderiv', 'sys': s, 'seed': '%d.%d' % (seed, i)})
    return out


class Form:
    """A library Mlt together with a python function of numeric vectors giving its exact value."""

    def __init__(self, T, rank, fn, scalar, desc):
        self.T, self.rank, self.fn, self.scalar, self.desc = T, rank, fn, scalar, desc


def vec_of(C, x):
    return {1 << i: c for i, c in enumerate(x) if c != 0}


def coords(v, n):
    return [v.get(1 << i, ref.Fraction(0)) for i in range(n)]


def component_form(n, rank, comp):
    """Multilinear form with components comp[(i, j, ...)] (numbers)."""
    def fn(*vs):
        t = ref.Fraction(0)
        cs = [coords(v, n) for v in vs]
        for idx, c in comp.items():
            p = c
            for k, i in enumerate(idx):
                p = ref.nmul(p, cs[k][i])
                if p == 0:
                    break
            else:
                t = ref.nadd(t, p)
        return ref.clean({0: t})
    return fn


def make(rng, w, ga, kind=None, rank=None, name=None, mvok=True):
    from galgebra.lt import Mlt
    n, C, env = ga.n, w.cl(ga), w.env
    kind = kind or rng.choice(['func', 'func', 'name', 'name', 'expr', 'vec', 'lt'])
    rank = rank or rng.choice([1, 2, 2, 2, 3, 3] if n <= 3 else [1, 2, 2])
    if kind == 'vec':
        v = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector'))
        if not v.is_vector():
            kind = 'name'
        else:
            vv = w.val(v, ga)
            return Form(Mlt(v, ga), 1, lambda x: C.hestenes(vv, x), True, 'vec %s' % (v.obj,))
    if kind == 'lt':
        from . import c16
        X = c16.construct(rng, w, ga, rng.choice(['nested', 'matrix', 'images']), False)
        cols = c16.cols_of(X.M)
        return Form(Mlt(X.L, ga), 2, lambda x, y: C.hestenes(x, C.outermorphism(cols, y)), True, 'lt %s' % X.desc)
    if kind == 'func':
        vs = [gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym', 'rat'), style='vector')) for _ in range(2)]
        B = gen.mk(ga, gen.mvspec(rng, n, ('int',), style=rng.choice(['sparse', 'dense'])))
        p, q = [w.val(v, ga) for v in vs]
        b = w.val(B, ga)
        u, v = vs
        H, G_, W, L = C.hestenes, C.gp, C.wedge, C.lcont
        one = [('u.a', lambda a: a | u, lambda a: H(a, p), 1), ('a^u', lambda a: a ^ u, lambda a: W(a, p), 0),
               ('a*B', lambda a: a * B, lambda a: G_(a, b), 0), ('u.a v', lambda a: (u | a) * v, lambda a: G_(H(p, a), q), 0)]
        two = [('a.b', lambda a, b_: a | b_, lambda x, y: H(x, y), 1), ('B<(a^b)', lambda a, b_: (a ^ b_) < B, lambda x, y: L(W(x, y), b), 0),
               ('(a.u)(b.v)', lambda a, b_: (a | u) * (b_ | v), lambda x, y: G_(H(x, p), H(y, q)), 1),
               ('a*b', lambda a, b_: a * b_, lambda x, y: G_(x, y), 0), ('a^b', lambda a, b_: a ^ b_, lambda x, y: W(x, y), 0),
               ('(a|u)b', lambda a, b_: (a | u) * b_, lambda x, y: G_(H(x, p), y), 0)]
        three = [('(a.b)(c.u)', lambda a, b_, c: (a | b_) * (c | u), lambda x, y, z: G_(H(x, y), H(z, p)), 1),
                 ('a^b^c', lambda a, b_, c: a ^ b_ ^ c, lambda x, y, z: W(W(x, y), z), 0),
                 ('(a^b).c', lambda a, b_, c: (a ^ b_) | c, lambda x, y, z: H(W(x, y), z), 0),
                 ('a.c b.v', lambda a, b_, c: (a | c) * (b_ | v), lambda x, y, z: G_(H(x, z), H(y, q)), 1)]
        four = [('(a.b)(c.d)', lambda a, b_, c, d: (a | b_) * (c | d), lambda x, y, z, t: G_(H(x, y), H(z, t)), 1),
                ('(a.d)(b.u)(c.v)', lambda a, b_, c, d: (a | d) * (b_ | u) * (c | v), lambda x, y, z, t: G_(H(x, t), G_(H(y, p), H(z, q))), 1),
                ('((a^b).(c^d))', lambda a, b_, c, d: (a ^ b_) | (c ^ d), lambda x, y, z, t: H(W(x, y), W(z, t)), 1)]
        five = [('(a.d)(b.u)(c.e)', lambda a, b_, c, d, e: (a | d) * (b_ | u) * (c | e), lambda x, y, z, t, s: G_(H(x, t), G_(H(y, p), H(z, s))), 1),
                ('((a^b).(c^e))(d.v)', lambda a, b_, c, d, e: ((a ^ b_) | (c ^ e)) * (d | v), lambda x, y, z, t, s: G_(H(W(x, y), W(z, s)), H(t, q)), 1)]
        L_ = {1: one, 2: two, 3: three, 4: four, 5: five}[rank]
        if not mvok:
            L_ = [t for t in L_ if t[3]]
        nm, lf, rf, sc = rng.choice(L_)
        return Form(Mlt(lf, ga), rank, rf, bool(sc), 'func %s u=%s v=%s B=%s' % (nm, u.obj, v.obj, B.obj))
    name = name or rng.choice(['T', 'S', 'K'])
    T = Mlt(name, ga, nargs=rank)
    ss = ga.basis_super_scripts
    # the components are read from the map's values on basis vectors, and must be distinct parameters
    comp = {}
    e = ga.mv()
    atoms = {}
    for idx in itertools.product(range(n), repeat=rank):
        c = T(*[e[i] for i in idx])
        c = getattr(c, 'obj', c)
        comp[idx] = env.num(c)
        atoms[idx] = expand(c)
    w.rec.check(len(set(atoms.values())) == n ** rank and all(a.is_Symbol for a in atoms.values()), 'comp', '%s %s %s' % (n, rank, name), 'comp',
                lambda: 'components of Mlt(%r, nargs=%d) are not distinct parameters: %s' % (name, rank, atoms))
    fn = component_form(n, rank, comp)
    if kind == 'expr':
        return Form(Mlt(T.fvalue, ga, nargs=rank), rank, fn, True, 'expr %s%d' % (name, rank))
    return Form(T, rank, fn, True, 'name %s%d' % (name, rank))


def args(rng, w, ga, k):
    n = ga.n
    out = []
    for j in range(k):
        r = rng.random()
        if r < .2:
            out.append(ga.mv(rng.choice(['a_1', 'a_2', 'a_3', 'v', 'a_%d' % (k - j)]), 'vector'))
        elif r < .35:
            out.append(ga.mv()[rng.randrange(n)])
        else:
            v = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym', 'rat'), style='vector'))
            out.append(v if v.obj != 0 else ga.mv()[0])
        if not ga.is_ortho and rng.random() < .1:
            out[-1] = out[-1].base_rep()
    return out


def judge(rng, w, ga, X, kind):
    vs = args(rng, w, ga, X.rank)
    vals = [w.val(v, ga) for v in vs]
    w.judge(kind, ga, [X.desc] + vals, X.T(*vs), X.fn(*vals), extra='%s on %s' % (X.desc, [v.obj for v in vs]))


def history(rng, w, ga, rec):
    """Other maps, in this algebra and in another with the same names."""
    from galgebra.ga import Ga
    from galgebra.lt import Mlt
    for _ in range(rng.randint(0, 3)):
        k = rng.randrange(5)
        if k == 0:
            make(rng, w, ga, 'name')
        elif k == 1:
            X = make(rng, w, ga, 'func')
            X.T(*args(rng, w, ga, X.rank))
        elif k == 2:
            o = Ga(' '.join(str(b) for b in ga.basis) if ga.n > 1 else '%s,' % ga.basis[0], g=[1] * ga.n)
            Mlt('T', o, nargs=rng.randint(1, 3))
        elif k == 3:
            Mlt.increment_slots(rng.randint(1, 4), ga)
        else:
            try:
                Mlt(S.One, ga)
            except TypeError:
                pass


def run(spec, rec):
    rng = gen.rng_for({'family': spec['family'], 'seed': '%s%s' % (spec['seed'], spec.get('sys', ''))})
    fam = spec['family']
    if fam == 'cderiv':
        return cderiv(spec, rec, rng)
    a = gen.algebra(rng, KINDS[:6] if fam == 'contract' else KINDS, nmax=4 if fam == 'eval' else 3, nmin=1)
    w, ga = workload.algebra_world(spec, rec, [], a)
    n, C = ga.n, w.cl(ga)
    history(rng, w, ga, rec)
    if fam == 'eval':
        kind = ['func', 'name', 'expr', 'vec', 'lt', 'func'][int(spec['seed'].split('.')[1]) % 6]
        X = make(rng, w, ga, kind)
        k = X.desc.split()[0]
        judge(rng, w, ga, X, 'eval-' + k)
        history(rng, w, ga, rec)
        judge(rng, w, ga, X, 'eval-' + k)
        rec.check(X.T.nargs == X.rank, 'nargs', X.desc, 'nargs', lambda: 'nargs of %s is %s' % (X.desc, X.T.nargs))
        # the same map built again evaluates alike
        if k == 'name':
            Y = Form(type(X.T)(X.desc.split()[1][:-1], ga, nargs=X.rank), X.rank, X.fn, True, X.desc)
            judge(rng, w, ga, Y, 'again')
        elif X.scalar:
            Y = Form(type(X.T)(getattr(X.T.fvalue, 'obj', X.T.fvalue), ga, nargs=X.rank), X.rank, X.fn, True, X.desc)
            judge(rng, w, ga, Y, 'again')
    elif fam == 'prog':
        regs = [make(rng, w, ga, rank=rng.choice([1, 2])) for _ in range(4)]
        for step in range(4):
            X, Y = rng.choice(regs), rng.choice(regs)
            op = rng.choice(['add', 'sub', 'add', '*', '^', '|', 'scale'])
            desc = '(%s %s %s)' % (X.desc, op, Y.desc)
            if len(desc) > 500:
                continue
            if op in ('add', 'sub'):
                if X.rank != Y.rank:
                    try:
                        X.T + Y.T if op == 'add' else X.T - Y.T
                        ok = False
                    except ValueError:
                        ok = True
                    rec.check(ok, 'reject', desc, 'rank-accepted', lambda: 'ranks %d and %d added' % (X.rank, Y.rank))
                    continue
                f = ref.add if op == 'add' else ref.sub
                Z = Form(X.T + Y.T if op == 'add' else X.T - Y.T, X.rank, lambda *v, X=X, Y=Y, f=f: f(X.fn(*v), Y.fn(*v)), X.scalar and Y.scalar, desc)
            elif op == 'scale':
                s = gen.parse(gen.scalar_spec(rng))
                sv = w.env.num(s)
                Z = Form(X.T * s, X.rank, lambda *v, X=X, sv=sv: ref.smul(sv, X.fn(*v)), X.scalar, '(%s * %s)' % (X.desc, s))
            else:
                if X.rank + Y.rank > 4 or (op != '*' and (hasattr(X.T.fvalue, 'Ga') is False or hasattr(Y.T.fvalue, 'Ga') is False)):
                    continue
                T = {'*': lambda: X.T * Y.T, '^': lambda: X.T ^ Y.T, '|': lambda: X.T | Y.T}[op]()
                Z = Form(T, X.rank + Y.rank, lambda *v, X=X, Y=Y, op=op: C.product(op, X.fn(*v[:X.rank]), Y.fn(*v[X.rank:])), X.scalar and Y.scalar, desc)
                op = 'chain' + op
            judge(rng, w, ga, Z, op)
            if rng.random() < .3:
                history(rng, w, ga, rec)
            if Z.rank <= 2:
                regs.append(Z)
            judge(rng, w, ga, X, 'operand')
    else:
        from . import c16
        gi = ref.matinv(C.g)
        for _ in range(2):
            X = make(rng, w, ga, rng.choice(['func', 'name', 'lt', 'expr', 'func']), rank=rng.choice([2, 2, 3, 3, 4, 4, 5] if n <= 2 else [2, 2, 2, 3, 3, 4] if n == 3 else [2, 2, 3]), mvok=False)
            if not X.scalar:
                continue
            i, j = rng.sample(range(X.rank), 2)
            Z = X.T.contract(i + 1, j + 1)
            e = [{1 << q: ref.Fraction(1)} for q in range(n)]
            rest = [q for q in range(X.rank) if q not in (i, j)]

            def fn(*v, X=X, i=i, j=j, rest=rest):
                t = {}
                for p in range(n):
                    for q in range(n):
                        if gi[p][q] == 0:
                            continue
                        full = [None] * X.rank
                        full[i], full[j] = e[p], e[q]
                        for r_, val in zip(rest, v):
                            full[r_] = val
                        t = ref.add(t, ref.smul(gi[p][q], X.fn(*full)))
                return t
            Y = Form(Z, X.rank - 2, fn, True, 'contract(%d,%d) of %s' % (i + 1, j + 1, X.desc))
            judge(rng, w, ga, Y, 'contract')
            if Y.rank >= 2:      # contracted again
                i2, j2 = rng.sample(range(Y.rank), 2)
                rest2 = [q for q in range(Y.rank) if q not in (i2, j2)]

                def fn2(*v):
                    t = {}
                    for p in range(n):
                        for q in range(n):
                            if gi[p][q] == 0:
                                continue
                            full = [None] * Y.rank
                            full[i2], full[j2] = e[p], e[q]
                            for r_, val in zip(rest2, v):
                                full[r_] = val
                            t = ref.add(t, ref.smul(gi[p][q], Y.fn(*full)))
                    return t
                judge(rng, w, ga, Form(Y.T.contract(i2 + 1, j2 + 1), Y.rank - 2, fn2, True, 'contract(%d,%d) of %s' % (i2 + 1, j2 + 1, Y.desc)), 'contract')
            # gradient with respect to a slot: the other slots stay symbolic
            k = rng.randrange(X.rank)
            D = X.T.pdiff(k + 1)
            vecs = getattr(ga, '_mlt_a', None)      # the symbolic slot vectors have no public name
            if vecs is None or len(vecs) < X.rank:
                rec.event('pdiff-unnamed-slots', X.desc)
                judge(rng, w, ga, X, 'operand')
                continue
            slots = [{1 << q: w.env.num(c) for q, c in enumerate(vecs[s].blade_coefs(list(ga.mv())))} for s in range(X.rank)]
            want = {}
            for p in range(n):
                full = list(slots)
                full[k] = e[p]
                d = ref.scalar(X.fn(*full))
                want = ref.add(want, {1 << q: ref.nmul(gi[p][q], d) for q in range(n)})
            w.judge('pdiff', ga, [X.desc, k], D, ref.clean(want), extra='slot %d of %s' % (k + 1, X.desc))
            judge(rng, w, ga, X, 'operand')


def cderiv(spec, rec, rng):
    from galgebra.lt import Mlt
    s = geo.system(spec['sys'], '%s%s' % (spec['seed'], spec['sys']))
    n = s['n']
    env = geo.env_for(spec['seed'])
    norm = bool(s['ortho'] and rng.random() < .4)
    G = geo.geometry(s, env, norm)
    ga = geo.build(s, rng, norm)
    w = monitor.World(rec, env)
    w.register(ga, G.g)
    C = G.cl
    names = 'xyz'[:n]
    rank = rng.choice([1, 1, 2])
    how = rng.choice(['func', 'expr'])
    cf = lambda: geo.P(rng.choice(['{0}', '{0}**2', 'sin({0})', '{0}*{1}', '1', '{0}+{1}']).format(rng.choice(names), rng.choice(names)))
    fs = [{1 << i: cf() for i in range(n) if rng.random() < .8} for _ in range(rank)]
    Fs = [geo.mvfield(ga, f) for f in fs]
    tag = '%s norm=%s rank=%d %s %s' % (s['name'], norm, rank, how, fs)
    if any(not f for f in fs):
        return
    lf = (lambda a: a | Fs[0]) if rank == 1 else (lambda a, b: (a | Fs[0]) * (b | Fs[1]))
    T = Mlt(lf, ga)
    if how == 'expr':
        T = Mlt(T.fvalue.obj, ga, nargs=rank)
    CD = T.cderiv()
    rec.check(CD.nargs == rank + 1, 'nargs', tag, 'cderiv-nargs', lambda: 'cderiv of %s has %d slots' % (tag, CD.nargs))
    for _ in range(2):
        # constant-coefficient argument vectors
        us = [{1 << i: gen.parse(gen.coef(rng, 'int')) for i in range(n)} for _ in range(rank + 1)]
        U = [G.num(u) for u in us]
        want = ref.Fraction(0)
        for i in range(n):
            k = ref.scalar(C.hestenes(U[-1], G.recip[i]))
            if k == 0:
                continue
            # the derivative of the vector fields gives (D_i T)(u, v)
            if rank == 1:
                d = ref.scalar(C.hestenes(U[0], G.num(G.D(i, fs[0]))))
            else:
                d = ref.nadd(ref.nmul(ref.scalar(C.hestenes(U[0], G.num(G.D(i, fs[0])))), ref.scalar(C.hestenes(U[1], G.num(fs[1])))),
                             ref.nmul(ref.scalar(C.hestenes(U[0], G.num(fs[0]))), ref.scalar(C.hestenes(U[1], G.num(G.D(i, fs[1]))))))
            want = ref.nadd(want, ref.nmul(k, d))
        got = CD(*[geo.mvfield(ga, u) for u in us])
        w.judge('cderiv', ga, [tag, str(us)], got, ref.clean({0: want}), extra='%s on %s' % (tag, us))
