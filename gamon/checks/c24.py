"""C24 coefficient-wise transformations."""
import operator

import mpmath
from sympy import (Derivative, Function, Rational, S, Symbol, apart, cancel, cos, diff, expand, expand_trig, factor, logcombine, powsimp, radsimp, ratsimp, simplify, sin, sympify, together, trigsimp)

from .. import gen, geo, monitor, num, ref
from . import c13

PROP = 'C24'
RULE = ('ident: simplify (default and every list of sympy modes), trigsimp, expand, collect, func with value-preserving functions and Simp.apply on random multivectors in both representations, in algebras '
        'with numeric and symbolic metrics, whose coefficients hide identities (sin^2+cos^2, cancelling quotients, nested sums); value compared at a random point. exact: subs (pairs, dictionaries, lists, '
        'simultaneous, functions), func and simplify(modes) with functions that change the value: every blade coefficient must be the function of the coefficient the multivector was built with. '
        'num: Nga at several precisions. dop: simplify of differential operators, applied to random fields before and after. linear: linear_expand, linear_expand_terms and collect of expressions. '
        'distinct_nontrivial counts distinct (operation, multivector).')
ASSUMPTIONS = ['sympy functions are right about the scalar expressions given to them', 'coefficients that vanish identically are not given to functions that do not preserve zero']
CASE_TIMEOUT = {'quick': 30, 'thorough': 200}
REQUIRED = ['simplify', 'simplify-modes', 'trigsimp', 'expand', 'collect', 'func-id', 'subs', 'subs-dict', 'subs-list', 'subs-sim', 'subs-func', 'func', 'modes-func', 'modes-seq', 'nga', 'nga-scalar', 'dop-simplify', 'dop-modes',
            'linear', 'linear-terms', 'lcollect', 'simp-apply', 'base', 'simp-global', 'chain']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('ident', 110), ('exact', 130), ('num', 60), ('dop', 70), ('linear', 50)) for i in range(m * k)]


HIDE = ['sin(a)**2+cos(a)**2', 'sin(a)**2+cos(a)**2-1+b', '(a**2-b**2)/(a-b)', '(a+b)**2-a**2-b**2', 'a*(b+c)-a*b', '(a+b)*(a-b)', 'sin(2*a)-2*sin(a)*cos(a)+c', 'cosh(a)**2-sinh(a)**2', '1/(1+a**2)+a**2/(1+a**2)',
        '(x+1)**3', 'x*(y+x)-x*y', 'exp(a)*exp(b)', 'sin(x)*cos(y)+cos(x)*sin(y)', '(a*b+a*c)/a', 'sqrt(2)*sqrt(3)*a', 'a+b', '2*a', '-c', '(a+1)/(a+1)', '(2*a+2)/2', 'cos(a)**4-sin(a)**4', 'tan(a)*cos(a)', 'a**2-1', 'a*x**2+b*x',
        '1/(a+b)-1/(a-b)', 'sin(a)**2+cos(a)**2-1']
PLAIN = [h for h in HIDE if h != 'sin(a)**2+cos(a)**2-1']


def P(s):
    from sympy import tan
    d = gen.sym_locals(gen.ALLSYMS)
    d.update(tan=tan, f=Function('f'), h=Function('h'), Derivative=Derivative)
    return sympify(s, locals=d)


def make(rng, ga, n, pool, kmax=4, split=True):
    """(multivector, {mask: coefficient}) built through one expression, sometimes with several terms per blade."""
    d = ga.indexes_to_blades_dict
    ms = rng.sample(range(1 << n), min(1 << n, rng.randint(1, kmax)))
    C = {m: P(rng.choice(pool)) for m in ms}
    obj = S.Zero
    for m, c in C.items():
        b = d[tuple(i for i in range(n) if m >> i & 1)]
        r = rng.random() if split else 1
        if r < .25 and c.is_Add:
            for t in c.args:
                obj += t * b
        elif r < .4 and m:
            c2 = P(rng.choice(['a', 'b', '2', 'x']))
            obj += (c - c2) * b + c2 * b
        else:
            obj += c * b
    A = ga.mv(obj)
    if split and len(C) > 1 and rng.random() < .2:
        # a common factor is left in front of the sum
        k = P(rng.choice(['a', 'sin(b)', '2', 'x']))
        A, C = ga.mv(k * A.obj), {m: k * c for m, c in C.items()}
    return A, C


def setup(spec, rec, rng, kinds=('euclid', 'ortho', 'degen', 'nonortho', 'symortho', 'symnon', 'default'), nmax=3):
    a = gen.algebra(rng, kinds=kinds, nmax=nmax, nmin=1)
    ga, g = gen.build(a)
    w = monitor.World(rec, num.Env(spec['seed'], wide=True))
    w.register(ga, g)
    return a, ga, w


def maybe_base(rng, ga, A, rec):
    if not ga.is_ortho and rng.random() < .5:
        rec.event('base', str(A.obj))
        return A.base_rep(), ' (base representation)'
    return A, ''


IDENT = [simplify, trigsimp, expand, factor, together, cancel, powsimp, expand_trig, ratsimp, radsimp, logcombine, sympify, lambda c: c, lambda c: c + 0]
CHANGE = [('square', lambda c: c ** 2), ('double', lambda c: 2 * c), ('neg', operator.neg), ('sin', sin), ('d/da', lambda c: diff(c, Symbol('a', real=True))), ('d/dx', lambda c: diff(c, Symbol('x', real=True))),
          ('plus1', lambda c: c + 1), ('cos', cos), ('const', lambda c: S(3)), ('int', lambda c: 2), ('zero', lambda c: S.Zero), ('inverse', lambda c: 1 / c), ('f', Function('f')), ('times x', lambda c: c * Symbol('x', real=True)),
          ('conj', lambda c: c.subs(Symbol('a', real=True), -Symbol('a', real=True))), ('ops', lambda c: S(1) if c.is_number else c)]

SEQ = [('square', lambda c: c ** 2), ('double', lambda c: 2 * c), ('neg', operator.neg), ('expand', expand), ('d/da', lambda c: diff(c, Symbol('a', real=True))), ('times x', lambda c: c * Symbol('x', real=True)),
       ('a to b', lambda c: c.subs(Symbol('a', real=True), Symbol('b', real=True) + 3)), ('d/dx', lambda c: diff(c, Symbol('x', real=True))), ('simplify', simplify)]


def run(spec, rec):
    rng = gen.rng_for(spec)
    {'ident': ident, 'exact': exact, 'num': numf, 'dop': dops, 'linear': linear}[spec['family']](spec, rec, rng)


def ident(spec, rec, rng):
    from galgebra import metric
    from galgebra.mv import Mv
    a, ga, w = setup(spec, rec, rng)
    n = a['n']
    for _ in range(4):
        A, C = make(rng, ga, n, HIDE, rng.choice([1, 2, 4, 6]))
        want = ref.clean({m: w.env.num(c) for m, c in C.items()})
        B, note = maybe_base(rng, ga, A, rec)
        key = [B.obj]
        ex = 'of %s in %s%s' % (A.obj, a, note)
        ops = rng.sample(['simplify', 'simplify-modes', 'trigsimp', 'expand', 'collect', 'func-id', 'simp-apply', 'simp-global', 'chain'], 4)
        for op in ops:
            if op == 'simplify':
                R = B.simplify()
            elif op == 'simplify-modes':
                modes = rng.sample(IDENT, rng.randint(1, 5))
                r = rng.random()
                R = B.simplify(modes=modes[0]) if r < .3 else B.simplify(modes=modes) if r < .7 else B.simplify(tuple(modes))
            elif op == 'trigsimp':
                R = B.trigsimp()
            elif op == 'expand':
                R = B.expand()
                if C and not B.is_blade_rep:
                    pass
            elif op == 'collect':
                R = B.collect()
            elif op == 'func-id':
                R = B.func(rng.choice(IDENT))
            elif op == 'chain':
                R = B
                for _ in range(3):
                    R = rng.choice([lambda x: x.simplify(), lambda x: x.expand(), lambda x: x.trigsimp(), lambda x: x.collect(), lambda x: x.func(factor)])(R)
            elif op == 'simp-apply':
                modes = rng.sample(IDENT, rng.randint(1, 2))
                old = metric.Simp.modes
                metric.Simp.profile(modes)
                try:
                    R = Mv(metric.Simp.apply(B.obj), ga=ga)
                finally:
                    metric.Simp.profile(old)
            else:
                # the global modes do not influence explicit requests
                old = metric.Simp.modes
                metric.Simp.profile([lambda c: c * 2])
                try:
                    R = B.simplify()
                finally:
                    metric.Simp.profile(old)
            rec.check(R.Ga is ga, op, str(key) + 'ga', op + ':ga', 'result of %s has another algebra' % op)
            w.judge(op, ga, key, R, want, extra=ex)
            if op in ('simplify', 'expand', 'trigsimp', 'func-id', 'simplify-modes'):
                # each blade once: the coefficients asked for agree with the value
                R2 = R.blade_rep()
                bl = list(ga.mv_blades.flat)
                cs = R2.blade_coefs(bl)
                got = ref.clean({ref.mask(t): w.env.num(c) for t, c in zip(ga.indexes.flat, cs)})
                w.judge(op, ga, key + ['coefs'], got, want, extra='coefficients ' + ex)


def exact(spec, rec, rng):
    a, ga, w = setup(spec, rec, rng)
    n = a['n']
    x, y, z, aa, b, c = [Symbol(s, real=True) for s in ('x', 'y', 'z', 'a', 'b', 'c')]
    f, h = Function('f'), Function('h')
    for _ in range(4):
        pool = PLAIN + ['f(x)', 'f(x)*h(y)', 'x*f(a)', 'p', 'p*a+q', 'Derivative(f(x), x)*a']
        A, C = make(rng, ga, n, pool, rng.choice([1, 2, 4, 6]))
        if any(w.env.num(v) == 0 for v in C.values()):
            continue
        B, note = maybe_base(rng, ga, A, rec)
        ex = 'of %s in %s%s' % (A.obj, a, note)
        for op in rng.sample(['subs', 'subs-dict', 'subs-list', 'subs-sim', 'subs-func', 'func', 'func', 'modes-func', 'modes-seq'], 5):
            vals = [S(2), S(0), y, aa + b, x ** 2, S.Half, sin(y), S(-1), 3, c * x]
            if a['kind'] in ('nonortho', 'symnon', 'default', 'symortho'):
                pass
            if op == 'subs':
                o, v = rng.choice([aa, b, c, x, y, Symbol('p', real=True)]), rng.choice(vals)
                args, kw = (o, v), {}
            elif op == 'subs-dict':
                ks = rng.sample([aa, b, c, x, y], rng.randint(1, 3))
                args, kw = ({k: rng.choice(vals) for k in ks},), {}
            elif op == 'subs-list':
                ks = rng.sample([aa, b, c, x, y], rng.randint(1, 3))
                args, kw = (rng.choice([list, tuple])([(k, rng.choice(vals)) for k in ks]),), {}
            elif op == 'subs-sim':
                p_, q_ = rng.sample([aa, b, c, x, y], 2)
                args, kw = ({p_: q_, q_: p_} if rng.random() < .5 else [(p_, q_), (q_, p_ + 1)],), {'simultaneous': True}
            elif op == 'subs-func':
                args, kw = rng.choice([((f(x), x ** 2), {}), ((f, sin), {}), (({f(x): aa, h(y): b},), {}), ((f(aa), x), {}), ((x * f(aa), c), {}), ((aa + b, c), {}), ((sin(aa), x), {})])
            if op.startswith('subs'):
                want = {}
                try:
                    for m, v in C.items():
                        want[m] = v.subs(*args, **kw)
                    if any(v.has(S.NaN, S.ComplexInfinity) or v.has(Derivative) and not op == 'subs-func' and v.atoms(Function('f').__class__) is None for v in want.values()):
                        rec.note('skip')
                        continue
                    wn = ref.clean({m: w.env.num(v.doit()) for m, v in want.items()})
                except (num.NonFinite, num.Malformed, ZeroDivisionError):
                    rec.note('skip')
                    continue
                R = B.subs(*args, **kw)
                R = R.func(lambda e: e.doit()) if R.obj.has(Derivative) else R
                # the coefficient is first collected, which a structural pattern may notice
                if op == 'subs-func' and args[0] in (x * f(aa), aa + b):
                    d = B.blade_rep()
                    coefs = d.blade_coefs(list(ga.mv_blades.flat))
                    try:
                        wn = ref.clean({ref.mask(t): w.env.num(sympify(k).subs(*args, **kw).doit()) for t, k in zip(ga.indexes.flat, coefs)})
                    except (num.NonFinite, num.Malformed):
                        rec.note('skip')
                        continue
                w.judge(op, ga, [B.obj, args], R, wn, extra='subs%s %s %s' % (args, kw, ex))
            elif op == 'modes-seq':
                # a sequence of modes is applied in the order given, each to the result of the one before
                seq = [rng.choice(SEQ) for _ in range(rng.randint(2, 5))]

                def comp(e):
                    for _, fn in seq:
                        e = sympify(fn(e))
                    return e
                if not B.is_blade_rep:
                    continue
                try:
                    wn = ref.clean({m: w.env.num(comp(v).doit()) for m, v in C.items()})
                except (num.NonFinite, num.Malformed, ZeroDivisionError):
                    rec.note('skip')
                    continue
                R = B.simplify(modes=rng.choice([list, tuple])(fn for _, fn in seq))
                R = R.func(lambda e: e.doit()) if R.obj.has(Derivative) else R
                names = ', '.join(nm for nm, _ in seq)
                w.judge(op, ga, [B.obj, names], R, wn, extra='modes %s %s' % (names, ex))
            else:
                nm, fn = rng.choice(CHANGE)
                if nm == 'ops':
                    continue
                want = {}
                try:
                    for m, v in C.items():
                        want[m] = sympify(fn(v))
                    if any(v.has(S.NaN, S.ComplexInfinity) for v in want.values()):
                        continue
                    wn = ref.clean({m: w.env.num(v.doit()) if nm != 'f' else v for m, v in want.items()})
                except (num.NonFinite, num.Malformed):
                    rec.note('skip')
                    continue
                if op == 'func':
                    R = B.func(fn)
                else:
                    two = rng.random() < .4
                    if not B.is_blade_rep and nm not in ('double', 'neg'):
                        continue
                    R = B.simplify(modes=[expand, fn] if two else fn)
                if nm == 'f':
                    # an unspecified function of each coefficient
                    R = R.func(lambda e: e.xreplace({t: t.args[0] ** 3 for t in e.atoms(f) if t not in (f(x), f(aa))}))
                    try:
                        wn = ref.clean({m: w.env.num(C[m] ** 3) for m in C})
                    except (num.NonFinite, num.Malformed):
                        continue
                    if any(C[m] in (x, aa) for m in C):
                        continue
                R = R.func(lambda e: e.doit()) if R.obj.has(Derivative) else R
                w.judge(op, ga, [B.obj, nm], R, wn, extra='%s %s' % (nm, ex))


def numf(spec, rec, rng):
    from galgebra.mv import Nga
    a, ga, w = setup(spec, rec, rng)
    n = a['n']
    pool = ['pi', 'sqrt(2)', '1/3', 'sqrt(2)*a', 'pi*a/7', '22/7', 'exp(1)', 'exp(2)*b', '100000/3', '-123456789/1000', 'a', '3', 'sqrt(5)*x**2', 'cos(1)', '1/7*sin(a)', 'pi**2', '1/700', 'sqrt(2)/1000000', '-3/7*c']
    for _ in range(5):
        A, C = make(rng, ga, n, pool, rng.choice([1, 2, 5]), False)
        C = {m: P(str(c)) for m, c in C.items()}
        B, note = maybe_base(rng, ga, A, rec) if a['kind'] == 'nonortho' else (A, '')
        prec = rng.choice([5, 3, 10, 15, 30, None])
        R = Nga(B) if prec is None else Nga(B, prec) if rng.random() < .5 else Nga(B, prec=prec)
        prec = prec or 5
        got = w.val(R, ga)
        want = {m: w.env.num(c) for m, c in C.items()}
        tol = mpmath.mpf(10) ** (1 - prec) * (1000 if note else 2)
        scale = max([abs(ref.to_mp(v)) for v in want.values()]) if note else 0
        ok = R.Ga is ga and all(abs(ref.to_mp(got.get(m, 0)) - ref.to_mp(want.get(m, 0))) <= tol * max(scale, abs(ref.to_mp(want.get(m, 0))) + (mpmath.mpf('1e-7') if m not in want else 0)) for m in set(got) | set(want))
        rec.check(ok, 'nga', '%s %s' % (B.obj, prec), 'nga', lambda: 'Nga(%s, %d)%s in %s is %s' % (A.obj, prec, note, a, R))
        # the coefficients are rounded
        if not note:
            from sympy import Float
            fl = [t for t in R.obj.atoms(Float)]
            rec.check(all(t._prec <= mpmath.libmp.dps_to_prec(prec) for t in fl) and not any(isinstance(t, Rational) and not t.is_Integer for t in R.obj.atoms(Rational) if t != S.Half or True), 'nga', '%s %s p' % (B.obj, prec), 'nga-prec',
                      lambda: 'Nga(%s, %d) is %s' % (A.obj, prec, R))
        e = P(rng.choice(pool))
        v = Nga(e, prec)
        rec.check(abs(ref.to_mp(w.env.num(v)) - ref.to_mp(w.env.num(e))) <= tol * abs(ref.to_mp(w.env.num(e))), 'nga-scalar', '%s %d' % (e, prec), 'nga-scalar', 'Nga(%s, %d) is %s' % (e, prec, v))


def dops(spec, rec, rng):
    from galgebra.dop import Pdop
    name = rng.choice(c13.CONST)
    s, env, G, ga, w = c13.setup(spec, name, rng)
    w.rec = rec
    n = s['n']
    xs = geo.XYZ[:n]
    ok = set(xs) | {Symbol('a', real=True)}
    pool = [P(c) for c in ['sin(x)**2+cos(x)**2', '(x+1)**2-x**2', 'x', '(x**2-25)/(x-5)', 'a*(x+1)-a', '(y+x)*(y-x)', 'sin(2*x)-2*sin(x)*cos(x)', '2', 'cos(x)**2-1', '(a+x)**2', '(x+y)**2-x**2-y**2']]
    pool = [p for p in pool if not p.free_symbols - ok]
    cmp = rng.random() < .35
    for _ in range(3):
        terms = []
        for _ in range(rng.choice([1, 2, 3])):
            F = {m: rng.choice(pool) for m, _ in gen.mvspec(rng, n, ('int',), rng.choice(['vector', 'sparse', 'blade', 'scalar']))} or {0: S.One}
            terms.append((F, c13.rpd(rng, xs)))
        D = ga.dop([(geo.mvfield(ga, F), Pdop(dict(p))) for F, p in terms], cmpflg=cmp)
        if rng.random() < .4:
            modes = rng.sample(IDENT, rng.randint(1, 2))
            R, kind = D.simplify(modes=modes if rng.random() < .7 else modes[0]), 'dop-modes'
        else:
            R, kind = D.simplify(), 'dop-simplify'
        sh = c13.Shadow(terms, cmp)
        rec.check(R.cmpflg == cmp and R.Ga is ga, kind, str(terms), kind + ':cmp', 'simplify loses the acting side or the algebra')
        F = c13.rfield(rng, n, xs)
        A = geo.mvfield(ga, F)
        for op in rng.sample(c13.OPS, 2):
            got = c13.app(op, A, R) if cmp else c13.app(op, R, A)
            w.judge(kind, ga, [name, op, str(terms), str(F)], got, sh.apply(G, op, F), extra='simplified %s %s on %s' % (terms, op, F))


def linear(spec, rec, rng):
    from galgebra import metric
    a, ga, w = setup(spec, rec, rng)
    n = a['n']
    for _ in range(5):
        A, C = make(rng, ga, n, HIDE, rng.choice([1, 2, 4, 6]))
        want = ref.clean({m: w.env.num(c) for m, c in C.items()})
        B, note = maybe_base(rng, ga, A, rec)
        ex = 'of %s%s' % (A.obj, note)
        for fn, op in ((metric.linear_expand, 'linear'), (metric.linear_expand_terms, 'linear-terms')):
            r = fn(B.obj)
            if op == 'linear':
                cs, bs = r
                cs, bs = list(cs), list(bs)
            else:
                r = list(r)
                cs, bs = [t[0] for t in r], [t[1] for t in r]
            rec.check(len(cs) == len(bs) and len(set(bs)) == len(bs) and all(S(c).is_commutative for c in cs) and all(b == 1 or (not b.is_commutative and not b.is_Mul) for b in bs), op, str(B.obj), op + ':form',
                      lambda: '%s %s is %s, %s' % (op, ex, cs, bs))
            w.judge(op, ga, [B.obj], ga.mv(sum((c * b for c, b in zip(cs, bs)), S.Zero)), want, extra=ex)
        nc = list(ga.blades.flat)[1:]
        sel = rng.sample(nc, rng.randint(0, len(nc)))
        if S.One not in nc and rng.random() < .5:
            sel = sel + [S.One]
        keep = list(sel)
        r = metric.collect(B.obj, sel)
        rec.check(sel == keep, 'lcollect', str(B.obj) + 'k', 'lcollect:arg', 'collect changed its argument')
        w.judge('lcollect', ga, [B.obj, sel], ga.mv(r), want, extra='%s by %s' % (ex, sel))
