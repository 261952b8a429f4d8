"""C13 differential operator algebra."""
import itertools
from math import comb

from sympy import S, Symbol, Rational, diff

from .. import gen, geo, monitor, num, ref

PROP = 'C13'
RULE = ('Random programs over registers of Dop, Sdop and Pdop objects (sums, differences, negation, scalar and multivector multiples on either side by every product, '
        'division, composition, derivative of an operator, simplify, consolidate, components, Sdop expansion) in algebras with constant metric, '
        'each register shadowed by an independent list of (coefficient field, multi-index) terms; after each step the operator is applied to random '
        'fields by every product on its acting side and compared at a random point. Flat curvilinear systems: single compositions with the Leibniz rule. '
        'Equality verdicts are compared with equality of terms. distinct_nontrivial counts distinct (operation, operator, field).')
ASSUMPTIONS = ['compositions are judged in flat space, where partial derivatives of multivector fields commute', 'plain scalars on the left of < and > are '
               'outside the statement (Python reflects the comparison)']
REQUIRED = ['apply', 'apply-cmp', 'sum', 'diff', 'neg', 'scale', 'left-mult', 'right-mult-cmp', 'compose', 'compose-cmp', 'sdop', 'sdop-compose', 'eq-true', 'eq-false',
            'pdop-of-dop', 'div', 'expand', 'curv-compose', 'plus-mv', 'mul-function', 'sdop-eq']
CASE_TIMEOUT = {'quick': 40, 'thorough': 240}
OPS = '*^|<>'
CONST = ['line', 'cart2', 'cart2', 'cart3', 'mink2', 'mink3', 'oblique2', 'scaled2', 'mink4']
FLAT = ['polar', 'cyl', 'parab', 'rindler', 'shear', 'logpolar', 'skewpolar', 'obliquesym']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('prog', 150), ('sdop', 90), ('eq', 60), ('curv', 60)) for i in range(m * k)]


def app(op, A, B):
    return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B}[op]()


def addpd(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def leibniz(p, q):
    """d^p (b d^q .) = sum C * (d^alpha b) d^(p-alpha+q): yields (C, alpha, beta)."""
    vs = list(p)
    for al in itertools.product(*[range(p[v] + 1) for v in vs]):
        c = 1
        for v, a in zip(vs, al):
            c *= comb(p[v], a)
        yield c, {v: a for v, a in zip(vs, al) if a}, addpd({v: p[v] - a for v, a in zip(vs, al)}, q)


class Shadow:
    """Reference operator: terms [(field, pd)], acting right (cmp False) or left (cmp True)."""

    def __init__(self, terms, cmp=False):
        self.terms = terms
        self.cmp = cmp

    def apply(self, G, op, F):
        R = {}
        for c, pd in self.terms:
            d = G.num(G.Dp(pd, F))
            cc = G.num(c)
            R = ref.add(R, G.cl.product(op, d, cc) if self.cmp else G.cl.product(op, cc, d))
        return R


def sprod(G, op, A, B):
    """Product of symbolic fields in a constant metric."""
    out = {}
    for a, x in A.items():
        for b, y in B.items():
            for m, v in G.cl.product(op, {a: 1}, {b: 1}).items():
                out[m] = out.get(m, S.Zero) + x * y * Rational(v.numerator, v.denominator) if not isinstance(v, int) else out.get(m, S.Zero) + x * y * v
    return {m: v.expand() for m, v in out.items() if v != 0 and v.expand() != 0}


def fscale(s, F):
    return {m: s * c for m, c in F.items()}


COEFS = ['1', '2', '-1', 'x', 'x**2', 'a', 'x*y', 'y', '-x+1', 'sin(x)', 'x+a', '1/2', '-3*x']


def coef(rng, xs):
    ok = set(xs) | {Symbol('a', real=True)}
    while True:
        c = geo.P(rng.choice(COEFS))
        if len(xs) > 3 and rng.random() < .5:
            c = c.subs(rng.choice(list(xs[:3])), xs[3])
        if not c.free_symbols - ok:
            return c


def rfield(rng, n, xs, style=None):
    ms = gen.mvspec(rng, n, ('int',), style or rng.choice(['sparse', 'vector', 'blade', 'scalar', 'sparse']))
    F = {m: coef(rng, xs) for m, _ in ms}
    return F or {0: S.One}


def rpd(rng, xs, maxo=2):
    k = rng.choice([0, 1, 1, 1, 2][:3 + maxo])
    pd = {}
    for _ in range(k):
        v = rng.choice(xs)
        pd[v] = pd.get(v, 0) + 1
    return pd


def pad(pd):
    """The same derivative, now and then written with an explicit zero count."""
    out = dict(pd)
    for i, v in enumerate(geo.XYZ[:2]):
        if v not in out and (len(pd) + i + sum(pd.values())) % 3 == 1:
            out = {v: 0, **out} if i else {**out, v: 0}
    return out


def mkdop(rng, ga, n, xs, cmp, nt=None):
    from galgebra.dop import Pdop
    nt = nt or rng.choice([1, 1, 2, 3])
    terms = []
    for _ in range(nt):
        terms.append((rfield(rng, n, xs, rng.choice(['vector', 'sparse', 'blade', 'scalar'])), rpd(rng, xs)))
    style = rng.randrange(3)
    mvs = [geo.mvfield(ga, f) for f, _ in terms]
    pds = [Pdop(pad(p)) for _, p in terms]
    if style == 0:
        D = ga.dop(mvs, pds, cmpflg=cmp)
    else:
        D = ga.dop(list(zip(mvs, pds)), cmpflg=cmp)
    return D, Shadow(terms, cmp)


def setup(spec, name, rng):
    s = [t for t in geo.systems_cached() if t['name'] == name][0]
    env = geo.env_for(spec['seed'])
    G = geo.geometry(s, env)
    ga = geo.build(s, rng)
    w = monitor.World(None, env)
    w.register(ga, G.g)
    return s, env, G, ga, w


def run(spec, rec):
    from galgebra.dop import Pdop, Sdop
    from galgebra.mv import Dop
    rng = gen.rng_for(spec)
    fam = spec['family']
    name = rng.choice(FLAT if fam == 'curv' else CONST)
    s, env, G, ga, w = setup(spec, name, rng)
    w.rec = rec
    n = s['n']
    xs = geo.XYZ[:n]

    def test(kind, D, sh, note='', ops=None):
        F = rfield(rng, n, xs)
        A = geo.mvfield(ga, F)
        for op in ops or rng.sample(OPS, 2):
            got = app(op, A, D) if sh.cmp else app(op, D, A)
            w.judge(kind, ga, [name, op, str(sh.terms), str(F)], got, sh.apply(G, op, F), extra='%s %s terms %s on %s %s' % (name, op, sh.terms, F, note))

    def compose(op, s1, s2):
        """terms of (D1 op D2) in a constant metric"""
        out = []
        if not s1.cmp:
            for a, p in s1.terms:
                for b, q in s2.terms:
                    for c, al, be in leibniz(p, q):
                        out.append((fscale(c, sprod(G, op, a, G.Dp(al, b))), be))
        else:
            for a, p in s1.terms:
                for b, q in s2.terms:
                    for c, al, be in leibniz(q, p):
                        out.append((fscale(c, sprod(G, op, G.Dp(al, a), b)), be))
        return Shadow(out, s1.cmp)

    if fam == 'prog':
        cmp = rng.random() < .35
        regs = [mkdop(rng, ga, n, xs, cmp) for _ in range(2)]
        g, rg = ga.grads()
        regs.append((rg if cmp else g, Shadow(G.grad_fields(), cmp)))
        for D, sh in regs:
            test('apply-cmp' if cmp else 'apply', D, sh, ops=OPS)
        for _ in range(7):
            (D1, s1), (D2, s2) = rng.choice(regs), rng.choice(regs)
            k = rng.choice(['sum', 'diff', 'neg', 'scale', 'left', 'compose', 'compose', 'div', 'plus', 'pdop', 'simp', 'expand'])
            if k == 'sum':
                D, sh, kind = D1 + D2, Shadow(s1.terms + s2.terms, cmp), 'sum'
            elif k == 'diff':
                D, sh, kind = D1 - D2, Shadow(s1.terms + [(fscale(-1, f), p) for f, p in s2.terms], cmp), 'diff'
            elif k == 'neg':
                D, sh, kind = -D1, Shadow([(fscale(-1, f), p) for f, p in s1.terms], cmp), 'neg'
            elif k == 'div':
                c = geo.P(rng.choice(['2', 'a', '-1/3', 'a**2+1']))
                c = int(c) if c.is_Integer else c
                D, sh, kind = D1 / c, Shadow([(fscale(S.One / c, f), p) for f, p in s1.terms], cmp), 'div'
            elif k == 'scale':
                c = coef(rng, xs)
                cc = int(c) if c.is_Integer else c
                D = D1 * cc if cmp else cc * D1
                sh, kind = Shadow([(fscale(c, f), p) for f, p in s1.terms], cmp), 'scale'
            elif k == 'left':
                F = rfield(rng, n, xs)
                A = geo.mvfield(ga, F)
                op = rng.choice(OPS)
                if cmp:
                    D, sh, kind = app(op, D1, A), Shadow([(sprod(G, op, f, F), p) for f, p in s1.terms], True), 'right-mult-cmp'
                else:
                    D, sh, kind = app(op, A, D1), Shadow([(sprod(G, op, F, f), p) for f, p in s1.terms], False), 'left-mult'
            elif k == 'compose':
                op = rng.choice('*' + OPS)
                D, sh, kind = app(op, D1, D2), compose(op, s1, s2), 'compose-cmp' if cmp else 'compose'
            elif k == 'plus':
                F = rfield(rng, n, xs)
                which = rng.randrange(4)
                if which == 0:
                    A = geo.mvfield(ga, F)
                elif which == 1:
                    F = {0: coef(rng, xs)}
                    A = F[0]
                else:
                    v = rng.choice([1, 2, -3])
                    F, A = {0: S(v)}, v
                T = [(F, {})]
                if rng.random() < .5:
                    D, sh = rng.choice([(D1 + A, Shadow(s1.terms + T, cmp)), (A + D1, Shadow(T + s1.terms, cmp))])
                else:
                    D, sh = rng.choice([(D1 - A, Shadow(s1.terms + [(fscale(-1, F), {})], cmp)),
                                        (A - D1, Shadow(T + [(fscale(-1, f), p) for f, p in s1.terms], cmp))])
                kind = 'plus-mv'
            elif k == 'pdop':
                p = rpd(rng, xs) or {xs[0]: 1}
                D = Pdop(pad(p))(D1) if rng.random() < .5 else Pdop(pad(p)) * D1
                sh = Shadow([(fscale(c, G.Dp(al, f)), be) for f, q in s1.terms for c, al, be in leibniz(p, q)], cmp)
                kind = 'pdop-of-dop'
            elif k == 'simp':
                D = rng.choice([lambda: D1.simplify(), lambda: D1.consolidate_coefs()])()
                sh, kind = s1, 'simplify'
            else:
                kind = 'expand'
                sh = s1
                parts = D1.Dop_mv_expand()
                if cmp:
                    continue
                D = ga.dop([(sd, ga.mv(b)) for sd, b in parts])
                comps = D1.components()
                tot = sum(comps[1:], comps[0]) if comps else D
                test('expand', tot, sh, 'components')
            if not isinstance(D, Dop):
                rec.violate(kind + ':type', '%s returned %s' % (kind, type(D)))
                continue
            rec.check(D.cmpflg == cmp, 'cmpflg', kind, kind + ':cmpflg', '%s lost the side' % kind)
            test(kind, D, sh)
            if len(sh.terms) <= 8:
                regs.append((D, sh))
        # operators acting on plain functions
        for D, sh in regs[:2]:
            f = coef(rng, xs)
            got = (f * D) if cmp else (D * f)
            w.judge('mul-function', ga, [name, str(sh.terms), str(f)], got, sh.apply(G, '*', {0: f}), extra='%s on %s' % (sh.terms, f))

    elif fam == 'sdop':
        def mks():
            t = [(coef(rng, xs), rpd(rng, xs)) for _ in range(rng.choice([1, 2, 2, 3]))]
            k = rng.randrange(3)
            if k == 0:
                D = Sdop([c for c, _ in t], [Pdop(pad(p)) for _, p in t])
            elif k == 1:
                D = Sdop([(c, Pdop(pad(p))) for c, p in t])
            else:
                x = rng.choice(xs)
                t = [(S.One, {x: 1})]
                D = Sdop(x)
            return D, t

        def sap(t, F):
            R = {}
            for c, p in t:
                for m, v in G.num(G.Dp(p, F)).items():
                    R = ref.add(R, {m: ref.nmul(env.num(c), v)})
            return R

        def tests(kind, D, t):
            F = rfield(rng, n, xs)
            A = geo.mvfield(ga, F)
            w.judge(kind, ga, [name, str(t), str(F)], rng.choice([lambda: D * A, lambda: D(A)])(), sap(t, F), extra='%s on %s' % (t, F))
            f = coef(rng, xs)
            r = D(f)
            w.judge(kind, ga, [name, str(t), str(f)], {0: env.num(r)}, sap(t, {0: f}), extra='%s on %s' % (t, f))
        regs = [mks() for _ in range(2)]
        for D, t in regs:
            tests('sdop', D, t)
        for _ in range(6):
            (D1, t1), (D2, t2) = rng.choice(regs), rng.choice(regs)
            k = rng.choice(['sum', 'diff', 'neg', 'scale', 'compose', 'pdop', 'plus', 'simp', 'self'])
            kind = 'sdop-' + k
            if k == 'sum':
                D, t = D1 + D2, t1 + t2
            elif k == 'diff':
                D, t = D1 - D2, t1 + [(-c, p) for c, p in t2]
            elif k == 'neg':
                D, t = -D1, [(-c, p) for c, p in t1]
            elif k == 'scale':
                c0 = coef(rng, xs)
                D, t = c0 * D1, [(c0 * c, p) for c, p in t1]
            elif k == 'compose':
                D = rng.choice([lambda: D1 * D2, lambda: D1(D2)])()
                t = [(a * m * G.Dp(al, {0: b})[0] if G.Dp(al, {0: b}) else S.Zero, be) for a, p in t1 for b, q in t2 for m, al, be in leibniz(p, q)]
            elif k == 'pdop':
                p = rpd(rng, xs) or {xs[0]: 1}
                D = Pdop(pad(p))(D1)
                t = [(m * (G.Dp(al, {0: b}) or {0: S.Zero})[0], be) for b, q in t1 for m, al, be in leibniz(p, q)]
            elif k == 'plus':
                c0 = coef(rng, xs)
                if rng.random() < .5:
                    D, t = rng.choice([(D1 + c0, t1 + [(c0, {})]), (c0 + D1, [(c0, {})] + t1)])
                else:
                    D, t = rng.choice([(D1 - c0, t1 + [(-c0, {})]), (c0 - D1, [(c0, {})] + [(-c, p) for c, p in t1])])
            elif k == 'simp':
                D, t = rng.choice([D1.simplify, lambda: Sdop.consolidate_coefs(D1)])(), t1
            else:
                D, t = D1 - D1, []
                F = rfield(rng, n, xs)
                Z = D * geo.mvfield(ga, F)
                rec.check(hasattr(Z, 'obj'), 'sdop-zero-type', str(F), 'sdop-zero-type', 'empty Sdop applied to Mv gives %s' % type(Z))
            if not isinstance(D, Sdop):
                rec.violate(kind + ':type', '%s returned %s' % (kind, type(D)))
                continue
            tests(kind, D, t)
            if len(t) <= 8:
                regs.append((D, t))
        # Dop from an Sdop expansion
        terms = [(mks(), rfield(rng, n, xs, 'blade')) for _ in range(2)]
        D = ga.dop([(d, geo.mvfield(ga, f)) for (d, _), f in terms])
        sh = Shadow([(fscale(c, f), p) for (_, t), f in terms for c, p in t])
        test('sdop-expansion', D, sh)
        # Pdop basics
        p = rpd(rng, xs)
        F = rfield(rng, n, xs)
        w.judge('pdop', ga, [name, str(p), str(F)], Pdop(pad(p)) * geo.mvfield(ga, F), G.num(G.Dp(p, F)), extra='%s %s' % (p, F))
        f = coef(rng, xs)
        SD = f * Pdop(pad(p))
        w.judge('pdop', ga, [name, str(p), str(F), str(f)], SD * geo.mvfield(ga, F), ref.smul(env.num(f), G.num(G.Dp(p, F))))

    elif fam == 'eq':
        def canon(terms):
            d = {}
            for f, p in terms:
                key = tuple(sorted((str(k), v) for k, v in p.items()))
                e = d.setdefault(key, {})
                for m, c in f.items():
                    e[m] = (e.get(m, S.Zero) + c).expand()
            return {k: {m: c for m, c in e.items() if c != 0} for k, e in d.items() if any(c != 0 for c in e.values())}
        for _ in range(4):
            cmp = rng.random() < .3
            (D1, s1), (D2, s2) = mkdop(rng, ga, n, xs, cmp), mkdop(rng, ga, n, xs, cmp)
            pairs = [(D1 + D2, s1.terms + s2.terms, D2 + D1, s2.terms + s1.terms),
                     (D1, s1.terms, D2, s2.terms),
                     ((D1 + D2) - D2, s1.terms, D1, s1.terms),
                     (D1, s1.terms, -D1, [(fscale(-1, f), p) for f, p in s1.terms])]
            t = list(s1.terms)
            rng.shuffle(t)
            E = ga.dop([(geo.mvfield(ga, f), Pdop(pad(p))) for f, p in t], cmpflg=cmp)
            pairs.append((D1, s1.terms, E, t))
            t2 = [(f, dict(reversed(list(p.items())))) for f, p in s1.terms]
            pairs.append((D1, s1.terms, ga.dop([(geo.mvfield(ga, f), Pdop(p)) for f, p in t2], cmpflg=cmp), t2))
            # operators that differ in a single term, of any order
            extra = ({rng.randrange(1 << n): rng.choice([S(1), S(-2), xs[0] if xs else S(3), coef(rng, xs)])}, {rng.choice(xs): rng.randint(1, 4)} if xs and rng.random() < .8 else {})
            if rng.random() < .3 and len(xs) > 1:
                u, v = rng.sample(list(xs), 2)
                extra = (extra[0], {u: rng.randint(1, 2), v: rng.randint(1, 3)})
            X = ga.dop([(geo.mvfield(ga, extra[0]), Pdop(pad(extra[1])))], cmpflg=cmp)
            pairs.append((D1, s1.terms, D1 + X, s1.terms + [extra]))
            pairs.append((D2 - X, s2.terms + [(fscale(-1, extra[0]), extra[1])], D2, s2.terms))
            pairs.append((X, [extra], ga.dop([], cmpflg=cmp), []))
            pairs.append((D1 + X - X, s1.terms, D1, s1.terms))
            for A, ta, B, tb in pairs:
                want = canon(ta) == canon(tb)
                key = '%s|%s' % (ta, tb)
                rec.check((A == B) is want, 'eq-true' if want else 'eq-false', key, 'dop-eq', lambda: 'Dop %s == %s is %s' % (ta, tb, A == B))
                rec.check((A != B) is (not want), 'eq-true' if want else 'eq-false', key, 'dop-ne', lambda: 'Dop %s != %s is %s' % (ta, tb, A != B))
            c1 = [(coef(rng, xs), rpd(rng, xs)) for _ in range(2)]
            c2 = [(coef(rng, xs), rpd(rng, xs)) for _ in range(2)]
            SA = Sdop([(c, Pdop(pad(p))) for c, p in c1])
            SB = Sdop([(c, Pdop(pad(p))) for c, p in c2])
            tof = lambda t: [({0: c}, p) for c, p in t]
            for A, ta, B, tb in [(SA + SB, c1 + c2, SB + SA, c2 + c1), (SA, c1, SB, c2), (SA, c1, SA + SB - SB, c1)]:
                want = canon(tof(ta)) == canon(tof(tb))
                rec.check((A == B) is want, 'sdop-eq', '%s|%s' % (ta, tb), 'sdop-eq', lambda: 'Sdop %s == %s is %s' % (ta, tb, A == B))
            p, q = rpd(rng, xs), rpd(rng, xs)
            x0 = coef(rng, xs)
            rec.check((Pdop(pad(p)) == Pdop(pad(q))) is (p == q), 'pdop-eq', '%s%s' % (p, q), 'pdop-eq', 'Pdop equality %s %s' % (p, q))
            if len(xs) > 1:
                u, v = rng.sample(list(xs), 2)
                i, j = rng.sample([1, 2, 3, 4], 2)
                for q2 in ({u: j, v: i}, {v: j, u: i}, {v: i, u: j}):
                    want = q2 == {u: i, v: j}
                    rec.check((Pdop({u: i, v: j}) == Pdop(q2)) is want, 'pdop-eq', '%s%s %s%s %s' % (u, i, v, j, q2), 'pdop-eq', 'Pdop equality %s%d %s%d and %s' % (u, i, v, j, q2))
                    rec.check((Sdop([(x0, Pdop({u: i, v: j}))]) == Sdop([(x0, Pdop(q2))])) is want, 'sdop-eq', '%s%s %s%s %s' % (u, i, v, j, q2), 'sdop-eq',
                              'Sdop equality %s%d %s%d and %s' % (u, i, v, j, q2))
            rec.check((Pdop(pad(p)) == 1) is (not p), 'pdop-eq', '%s' % (p,), 'pdop-eq-one', 'Pdop(%s) == 1' % (p,))
    else:
        cmp = rng.random() < .4
        (D1, s1), (D2, s2) = mkdop(rng, ga, n, xs, cmp, 1), mkdop(rng, ga, n, xs, cmp, rng.choice([1, 2]))
        g, rg = ga.grads()
        if rng.random() < .4:
            D1, s1 = (rg if cmp else g), Shadow(G.grad_fields(), cmp)
        if rng.random() < .4:
            D2, s2 = (rg if cmp else g), Shadow(G.grad_fields(), cmp)
        op1, op2 = rng.choice(OPS), rng.choice(OPS)
        F = rfield(rng, n, xs)
        A = geo.mvfield(ga, F)
        D = app(op1, D1, D2)
        want = {}
        for a, p in s1.terms:
            for b, q in s2.terms:
                for c, al, be in (leibniz(q, p) if cmp else leibniz(p, q)):
                    if cmp:
                        k = G.cl.product(op1, G.num(G.Dp(al, a)), G.num(b))
                        t = G.cl.product(op2, G.num(G.Dp(be, F)), k)
                    else:
                        k = G.cl.product(op1, G.num(a), G.num(G.Dp(al, b)))
                        t = G.cl.product(op2, k, G.num(G.Dp(be, F)))
                    want = ref.add(want, ref.smul(c, t))
        got = app(op2, A, D) if cmp else app(op2, D, A)
        w.judge('curv-compose', ga, [name, op1, op2, cmp, str(s1.terms), str(s2.terms), str(F)], got, want,
                extra='%s (D1 %s D2) %s F cmp=%s %s / %s / %s' % (name, op1, op2, cmp, s1.terms, s2.terms, F))
        test('apply-cmp' if cmp else 'apply', D1, s1)
        T = D1 + D2
        test('sum', T, Shadow(s1.terms + s2.terms, cmp))
        if op1 == op2 == '*':
            w.judge('curv-assoc', ga, [name, str(F)], app('*', app('*', A, D1), D2) if cmp else app('*', D1, app('*', D2, A)), want, extra=name)
