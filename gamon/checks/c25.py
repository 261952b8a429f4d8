"""C25 objects of different algebras are never combined."""
import gc
import operator

from sympy import Eq, ImmutableMatrix, Matrix, Rational, S, Symbol, Tuple, symbols

from .. import gen, geo, monitor, num, ref

PROP = 'C25'
RULE = ('cross: two or more algebras in one process (twins with the same names, metric and coordinates; the same names with another metric; other dimensions; submanifold and base; a long series in between) and, '
        'for every pair of objects one from each (multivectors of every grade and representation, zero included, differential operators, linear and multilinear transformations), every binary operator in both orders and every '
        'two-operand method or constructor: each must raise (== may report unequal, != unequal). junk: every kind of object against operand types no operation supports. Afterwards both operands are unchanged '
        'and same-algebra products still equal the reference. identity: long series of algebras are pairwise different and equal to themselves, and interleaved computations in like-named algebras use their own metric. '
        'distinct_nontrivial counts distinct (operation, operand kinds, algebra).')
ASSUMPTIONS = ['scalar differential operators Pdop and Sdop and raw sympy expressions belong to no algebra', 'ga.mv(B) and Mv(B, ga=ga) are explicit conversions', 'numbers, complex numbers, floats and sympy expressions are scalars']
CASE_TIMEOUT = {'quick': 60, 'thorough': 300}
REQUIRED = ['cross', 'cross-method', 'cross-twin', 'cross-metric', 'cross-dim', 'cross-sm', 'cross-eq', 'junk', 'junk-eq', 'junk-method', 'kept', 'ga-eq', 'ga-ne', 'after', 'same-ok', 'inter']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '^': operator.xor, '|': operator.or_, '<': operator.lt, '>': operator.gt,
       '<<': operator.lshift, '>>': operator.rshift, '**': operator.pow, '//': operator.floordiv, '%': operator.mod, '@': operator.matmul, '&': operator.and_,
       '<=': operator.le, '>=': operator.ge, 'call': lambda a, b: a(b), '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '^=': operator.ixor, '|=': operator.ior}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('cross', 140), ('junk', 80), ('identity', 20), ('sm', 40), ('inter', 80)) for i in range(m * k)]


def objects(rng, w, ga, light=False):
    """{kind: object} of one algebra."""
    from galgebra.dop import Pdop, Sdop
    from galgebra.lt import Mlt
    from galgebra.mv import Dop
    n = ga.n
    e = ga.mv()
    e = list(e) if isinstance(e, (tuple, list)) else [e]
    x = ga.coords[0] if ga.coords else Symbol('x', real=True)
    o = {'scalar': ga.mv(S(rng.choice([1, 2, 3]))), 'symscalar': ga.mv(Symbol('a', real=True)), 'zero': ga.mv(0), 'basis': rng.choice(e), 'vector': ga.mv('v', 'vector'),
         'mv': ga.mv(rng.choice('ABC'), 'mv'), 'random': gen.mk(ga, gen.mvspec(rng, n)), 'pseudo': ga.I(), 'sum': 1 + e[0]}
    if n > 1:
        o['blade'] = e[0] ^ e[1]
        o['rotor'] = e[0] * e[1] + 2
    if not ga.is_ortho:
        o['baserep'] = o['random'].base_rep()
    if ga.coords:
        o['Dvec'] = ga.dop([(e[0], Pdop(x))])
        o['Dscal'] = ga.dop([(ga.mv(1), Pdop(x))])
        o['Dmult'] = ga.dop([(rng.choice(e), Pdop({}))])
        o['Dzero'] = ga.dop([])
        o['Dcmp'] = Dop([(e[0], Pdop(x))], ga=ga, cmpflg=True)
        try:
            o['grad'] = ga.grad
            o['rgrad'] = ga.rgrad
        except (ValueError, NotImplementedError, ZeroDivisionError):
            pass
    if n > 1:
        o['Ltname'] = ga.lt(rng.choice('LF'))
        o['Ltlist'] = ga.lt([rng.choice(e) for _ in e])
        o['Ltzero'] = ga.lt(lambda v: 0 * v)
        o['Mltname'] = Mlt(rng.choice('TU'), ga, nargs=rng.choice([1, 2]))
        o['Mltfun'] = Mlt(lambda u: (u | e[0]).obj, ga, nargs=1)
        o['Mltvec'] = Mlt(lambda u: u ^ e[0], ga, nargs=1)
    if light:
        keep = rng.sample(sorted(o), min(len(o), light))
        o = {k: o[k] for k in keep}
    return o


class Kept:
    """What was known of an object before an operation on it failed."""

    def __init__(self, x):
        self.x = x
        self.s = self.state()

    def state(self):
        from galgebra.mv import Mv, Dop
        from galgebra.lt import Lt, Mlt
        x = self.x
        if isinstance(x, Mv):
            return x.obj, x.is_blade_rep, x.Ga.name, x.title
        if isinstance(x, Dop):
            return [(getattr(c, 'obj', c), dict(p.pdiffs)) for c, p in x.terms], x.cmpflg, x.Ga.name
        if isinstance(x, Lt):
            return {k: getattr(v, 'obj', v) for k, v in x.lt_dict.items()}, x.Ga.name
        if isinstance(x, Mlt):
            return getattr(x.fvalue, 'obj', x.fvalue), x.nargs, x.Ga.name
        return None

    def ok(self):
        return self.state() == self.s


def brief(r):
    try:
        return '%s %s' % (type(r).__name__, str(r)[:160])
    except Exception:   # noqa: BLE001
        return type(r).__name__


def raises(rec, kind, key, sig, f, what):
    """The operation must raise an ordinary exception."""
    try:
        r = f()
    except Exception:   # noqa: BLE001 - any error will do
        rec.event(kind, key)
        return True
    rec.check(False, kind, key, sig, lambda: '%s returns %s' % (what(), brief(r)))
    return False


def equality(rec, kind, key, sig, a, b, what):
    """== raises or is False, != raises or is True."""
    for nm, f, good in (('==', operator.eq, False), ('!=', operator.ne, True)):
        try:
            r = f(a, b)
        except Exception:   # noqa: BLE001
            rec.event(kind, key + nm)
            continue
        rec.check(r is good, kind, key + nm, sig + nm, lambda: '%s %s is %s' % (what(), nm, brief(r)))


def twins(rng, spec, w):
    """(relation, ga, gb)"""
    rel = rng.choice(['twin', 'twin', 'twin', 'metric', 'dim', 'twin-after'])
    while True:
        a = gen.algebra(rng, kinds=('euclid', 'ortho', 'degen', 'nonortho', 'nonsing', 'symortho', 'default'), nmax=3, nmin=1, coords=True)
        if a['n'] > 1 or rng.random() < .2:
            break
    ga, g = gen.build(a)
    if rel == 'metric':
        n = a['n']
        b = dict(a, g=[str(rng.choice([1, -1, 2, 3])) for _ in range(n)])
        for k in ('norm', 'Isq', 'sig'):
            b.pop(k, None)
    elif rel == 'dim':
        b = gen.algebra(rng, kinds=('euclid', 'ortho', 'nonsing'), nmax=4, nmin=1, coords=True)
    else:
        b = a
    if rel == 'twin-after':
        for _ in range(rng.choice([3, 9, 40])):
            gen.build(dict(a, n=1, basis='e_1,', g=['1'], coords=None))
    gb, g2 = gen.build(b)
    w.register(ga, g)
    w.register(gb, g2)
    return rel, a, ga, gb


def run(spec, rec):
    rng = gen.rng_for(spec)
    w = monitor.World(rec, num.Env(spec['seed'], wide=True))
    {'cross': cross, 'junk': junk, 'identity': identity, 'sm': sm, 'inter': inter}[spec['family']](spec, rec, rng, w)


def pairwise(rec, rng, ga, gb, oa, ob, rel, limit=None):
    pairs = [(i, j) for i in sorted(oa) for j in sorted(ob)]
    if limit and len(pairs) > limit:
        pairs = rng.sample(pairs, limit)
    nm = 'cross-' + {'twin-after': 'twin'}.get(rel, rel)
    for i, j in pairs:
        a, b = oa[i], ob[j]
        ka, kb = Kept(a), Kept(b)
        for o, f in OPS.items():
            for x, y, n in ((a, b, '%s %s %s' % (i, o, j)), (b, a, '%s %s %s reversed' % (j, o, i))):
                if o == 'call' and not callable(x):
                    continue
                raises(rec, 'cross', '%s %s %s' % (n, rel, ga.n), 'cross:%s' % n, lambda: f(x, y), lambda: '%s of different algebras (%s)' % (n, rel))
        equality(rec, 'cross-eq', '%s %s %s %s' % (i, j, rel, ga.n), 'cross-eq:%s,%s' % (i, j), a, b, lambda: 'comparison of %s and %s of different algebras (%s)' % (i, j, rel))
        rec.check(ka.ok() and kb.ok(), 'kept', '%s %s %s' % (i, j, rel), 'kept', lambda: 'a refused operation changed %s or %s' % (i, j))
        rec.event(nm, '%s %s' % (i, j))


def methods(rec, rng, ga, gb, oa, ob, rel):
    """Two-operand methods, functions and constructors."""
    from galgebra.dop import Pdop
    from galgebra.ga import Ga
    from galgebra.lt import Lt, Mlt
    from galgebra import mv as M
    A, B = oa['mv'], ob['mv']
    v, u = oa['vector'], ob['vector']
    x = ga.coords[0]
    ea, eb = list(ga.mv()) if ga.n > 1 else [v], list(gb.mv()) if gb.n > 1 else [u]
    t = {'ga.dop1': lambda: ga.dop([(u, Pdop(x))]), 'ga.dop2': lambda: ga.dop([u], [Pdop(x)]), 'ga.dop3': lambda: ga.dop([(v, Pdop(x)), (u, Pdop({}))]), 'make_grad': lambda: ga.make_grad(u), 'pDiff': lambda: ga.pDiff(B, x),
         'com': lambda: ga.com(A, B), 'Ga.com': lambda: Ga.com(A, B), 'dot': lambda: ga.dot(A, B) if rng else 0,
         'A.sp': lambda: A.sp(B), 'sp-rev': lambda: A.sp(B, 'rev'), 'M.sp': lambda: M.sp(A, B), 'compare': lambda: M.compare(A, B)}
    for m in ('mul', 'Mul', 'wedge', 'hestenes_dot', 'left_contract', 'right_contract'):
        if hasattr(ga, m):
            t['ga.' + m] = lambda m=m: getattr(ga, m)(A, B)
    if gb.n > 1:
        R, Ib = ob['blade'], ob['pseudo']
        t.update({'proj': lambda: A.proj(eb), 'blade_coefs': lambda: A.blade_coefs([eb[0]]), 'blade_coefs2': lambda: A.blade_coefs([ea[0], R])})
        if gb.is_ortho and all(gb.g[i, i] != 0 for i in range(gb.n)):
            t.update({'project_in_blade': lambda: A.project_in_blade(R), 'M.proj': lambda: M.proj(R, A), 'M.rot': lambda: M.rot(R, A)})
            if (R * R.rev()).is_scalar():
                t.update({'reflect_in_blade': lambda: A.reflect_in_blade(R), 'M.refl': lambda: M.refl(R, A), 'rotate': lambda: A.rotate_multivector(R)})
        if ga.n == gb.n == 3:
            t['cross'] = lambda: M.cross(v, u)
    if ga.n > 1:
        t.update({'lt-list': lambda: ga.lt(eb), 'lt-mixlist': lambda: ga.lt(ea[:-1] + [eb[-1]]), 'lt-dict': lambda: Lt({s: eb[0] for s in ga.basis}, ga=ga), 'lt-dict1': lambda: Lt({ga.basis[0]: eb[0]}, ga=ga),
                  'lt-fun': lambda: ga.lt(lambda y: u), 'lt-fun2': lambda: ga.lt(lambda y: y + u), 'L(u)': lambda: oa['Ltname'](u), 'L(B)': lambda: oa['Ltlist'](B), 'L.call(L)': lambda: oa['Ltname'](ob['Ltname']) if 'Ltname' in ob else 1 / 0,
                  'T(u)': lambda: Mlt('T', ga, nargs=2)(v, u), 'T(u,v)': lambda: Mlt('T', ga, nargs=2)(u, v), 'T(u1)': lambda: oa['Mltfun'](u), 'Mlt-fun': lambda: Mlt(lambda y: (y | u).obj, ga, nargs=1),
                  'Mlt-fun2': lambda: Mlt(lambda y: y ^ u, ga, nargs=1), 'Tvec(u)': lambda: oa['Mltvec'](u)})
        if gb.n > 1:
            t['lt-rot'] = lambda: ga.lt(ob['rotor'])
    for k, f in t.items():
        raises(rec, 'cross-method', '%s %s %s' % (k, rel, ga.n), 'cross-method:' + k, f, lambda: '%s with operands of different algebras (%s)' % (k, rel))


def still(rec, w, rng, ga, note):
    """Same-algebra operations still work and are right."""
    for _ in range(2):
        a, b = gen.mk(ga, gen.mvspec(rng, ga.n)), gen.mk(ga, gen.mvspec(rng, ga.n))
        av, bv = w.val(a, ga), w.val(b, ga)
        C = w.cl(ga)
        for o, got, want in (('*', a * b, C.gp(av, bv)), ('^', a ^ b, C.wedge(av, bv)), ('+', a + b, ref.add(av, bv)), ('-', a - b, ref.sub(av, bv)), ('|', a | b, C.hestenes(av, bv)), ('<', a < b, C.lcont(av, bv))):
            w.judge('same-ok', ga, [o, av, bv], got, want, note)
        rec.check((a == b) == (not ref.sub(av, bv)), 'same-ok', '== %s %s' % (a.obj, b.obj), 'same-eq', lambda: '%s == %s is %s' % (a.obj, b.obj, a == b))
        rec.check(a == ga.mv(a.obj), 'same-ok', 'copy %s' % a.obj, 'same-eq', lambda: '%s is not equal to its copy' % a.obj)


def gas(rec, ga, gb, what):
    rec.check(not (ga == gb) and ga != gb and not (gb == ga), 'ga-ne', '%s %s' % (what, ga.n), 'ga-ne', lambda: 'two algebras are equal (%s)' % what)
    for g in (ga, gb):
        rec.check(g == g and not (g != g) and hash(g) == hash(g), 'ga-eq', '%s %s' % (what, g.n), 'ga-eq', lambda: 'an algebra differs from itself')
    rec.check(len({ga: 1, gb: 2}) == 2, 'ga-ne', 'dict', 'ga-dict', lambda: 'two algebras are one dictionary key (%s)' % what)


def cross(spec, rec, rng, w):
    rel, a, ga, gb = twins(rng, spec, w)
    gas(rec, ga, gb, rel)
    oa, ob = objects(rng, w, ga), objects(rng, w, gb)
    pairwise(rec, rng, ga, gb, oa, ob, rel, 60)
    methods(rec, rng, ga, gb, oa, ob, rel)
    methods(rec, rng, gb, ga, ob, oa, rel)
    still(rec, w, rng, rng.choice([ga, gb]), 'after refused operations')
    rec.event('after', str(a))


def sm(spec, rec, rng, w):
    """Submanifold algebra against its base and against another submanifold."""
    u, v = symbols('u v', real=True)
    k = rng.randrange(4)
    if k == 0:
        X = symbols('x y z', real=True)
        ga = gen.build({'n': 3, 'basis': 'e_x e_y e_z', 'g': ['1', '1', '1'], 'coords': ['x', 'y', 'z']})[0]
        maps = [[u, v, u ** 2], [u, v, u * v], [u + v, u - v, v]]
    elif k == 1:
        ga = gen.build({'n': 2, 'basis': 'e_1 e_2', 'g': ['1', rng.choice(['1', '-1', '2'])], 'coords': ['x', 'y']})[0]
        maps = [[u, u ** 2], [2 * u, u]]
    elif k == 2:
        ga = gen.build({'n': 3, 'basis': 'a b c', 'g': ['1', '2', '-1'], 'coords': ['x', 'y', 'z']})[0]
        maps = [[u, v, 3], [u, u + 2 * v, v ** 2]]
    else:
        ga = gen.build({'n': 2, 'basis': 'e_1 e_2', 'g': ['1', '1'], 'coords': ['x', 'y']})[0]
        maps = [[u + v, v], [u, v * 2]]
    rng.shuffle(maps)
    nu = 1 if k == 1 else 2
    subs = [ga.sm([S(t) for t in m], (u, v)[:nu]) for m in maps[:2]]
    if rng.random() < .4:
        subs[1] = ga.sm([S(t) for t in maps[0]], (u, v)[:nu])
    gas(rec, subs[0], subs[1], 'two submanifolds')
    gas(rec, ga, subs[0], 'submanifold and base')
    A, B = rng.choice([(ga, subs[0]), (subs[0], ga), (subs[0], subs[1])])
    oa, ob = objects(rng, w, A), objects(rng, w, B)
    pairwise(rec, rng, A, B, oa, ob, 'sm', 25)
    methods(rec, rng, A, B, oa, ob, 'sm')
    rec.event('cross-sm', str(maps))


class Thing:
    pass


def junkers(ga):
    e = ga.mv() if ga.n > 1 else ()
    return {'str': 'x', 'basis-str': 'e_1', 'empty-str': '', 'list': [1, 2], 'mvlist': list(e), 'tuple': (1, 2), 'dict': {}, 'dict1': {1: 2}, 'None': None, 'object': Thing(), 'Matrix': Matrix([[1, 2], [3, 4]]), 'IMatrix': ImmutableMatrix([[1, 0], [0, 1]]),
            'row': Matrix([[1, 2, 3]]), 'M11': Matrix([[5]]), 'Ga': ga, 'set': {1}, 'frozenset': frozenset([1]), 'lambda': lambda y: y, 'type': int, 'bytes': b'1', 'Tuple': Tuple(1, 2), 'true': S.true, 'Eq': Eq(Symbol('a'), 1), 'range': range(2),
            'slice': slice(1), 'Ellipsis': Ellipsis, 'module': operator}


def junk(spec, rec, rng, w):
    from galgebra.dop import Pdop, Sdop
    from galgebra.lt import Lt, Mlt
    from galgebra.mv import Mv, Dop
    a = gen.algebra(rng, kinds=('euclid', 'ortho', 'nonortho', 'nonsing', 'symortho'), nmax=3, nmin=2, coords=True)
    ga, g = gen.build(a)
    w.register(ga, g)
    o = objects(rng, w, ga)
    J = junkers(ga)
    kind = {k: type(x) for k, x in o.items()}
    lts = {k for k in o if isinstance(o[k], Lt)}
    mlts = {k for k in o if isinstance(o[k], Mlt)}
    for i in rng.sample(sorted(o), min(len(o), 9)):
        x = o[i]
        js = dict(J)
        # unsupported combinations of galgebra's own types
        if isinstance(x, Mv):
            if not x.is_scalar():
                js.update({'own ' + k: o[k] for k in lts})
        elif isinstance(x, Dop):
            js.update({'own ' + k: o[k] for k in lts | mlts})
        elif isinstance(x, Lt):
            js.update({'own ' + k: o[k] for k in o if isinstance(o[k], (Dop, Mlt))})
        elif isinstance(x, Mlt):
            js.update({'own ' + k: o[k] for k in o if isinstance(o[k], (Dop, Lt))})
        if not isinstance(x, (Mv, Dop)):
            js.pop('IMatrix')        # an expression to sympy
            js['Pdop'], js['Sdop'] = Pdop(ga.coords[0]), Sdop([(S.One, Pdop(ga.coords[0]))])
        for j in rng.sample(sorted(js), min(len(js), 16)):
            y = js[j]
            kx = Kept(x)
            for op, f in OPS.items():
                for p, q, side in ((x, y, 0), (y, x, 1)):
                    if unclaimed(op, side, i, j, x, y):
                        continue
                    n = '%s %s %s' % ((i, op, j) if not side else (j, op, i))
                    raises(rec, 'junk', '%s %s' % (n, ga.n), 'junk:' + n, lambda: f(p, q), lambda: '%s in %s' % (n, a))
            equality(rec, 'junk-eq', '%s %s %s' % (i, j, ga.n), 'junk-eq:%s,%s' % (i, j), x, y, lambda: 'comparison of %s with %s' % (i, j))
            rec.check(kx.ok(), 'kept', 'junk %s %s' % (i, j), 'kept', lambda: 'a refused operation changed %s' % i)
    e = ga.mv()
    x = ga.coords[0]
    t = {'mv(list)': lambda: ga.mv([1, 2]), 'mv(Matrix)': lambda: ga.mv(Matrix([[1]])), 'mv(dict)': lambda: ga.mv({}), 'mv(object)': lambda: ga.mv(Thing()), 'mv(kind)': lambda: ga.mv('A', 'nonsense'), 'mv(kind2)': lambda: ga.mv('A', 1.5),
         'mv(L)': lambda: ga.mv(o['Ltname']), 'mv(D)': lambda: ga.mv(o['Dvec']), 'mv(T)': lambda: ga.mv(o['Mltname']), 'lt(None)': lambda: ga.lt(None), 'lt(num list)': lambda: ga.lt([object() for _ in e]), 'lt(set)': lambda: ga.lt({1, 2}), 'lt(D)': lambda: ga.lt(o['Dvec']),
         'lt(str images)': lambda: ga.lt(['a' for _ in e]), 'dop(None)': lambda: ga.dop(None), 'dop(int)': lambda: ga.dop(3), 'dop(str)': lambda: ga.dop('x'), 'Pdop(int)': lambda: Pdop(3), 'Pdop(list)': lambda: Pdop([x]),
         'Sdop(int)': lambda: Sdop(3), 'Sdop(dict)': lambda: Sdop({}), 'sp(None)': lambda: o['mv'].sp(None), 'sp(list)': lambda: o['mv'].sp([1]), 'sp(L)': lambda: o['mv'].sp(o['Ltname']),
         'L(list)': lambda: o['Ltname']([1]), 'L(dict)': lambda: o['Ltname']({}), 'T(str)': lambda: o['Mltfun']('x'), 'T(list)': lambda: o['Mltfun']([1]), 'T(v,v)': lambda: o['Mltfun'](o['vector'], o['vector']),
         'blade_coefs(int)': lambda: o['mv'].blade_coefs([3]), 'project(None)': lambda: o['mv'].project_in_blade(None), 'rotate(None)': lambda: o['mv'].rotate_multivector(None), 'make_grad(int)': lambda: ga.make_grad(3), 'com(None)': lambda: ga.com(o['mv'], None), 'pow(half)': lambda: o['mv'] ** Rational(1, 2),
         'pow(sym)': lambda: o['mv'] ** Symbol('k'), 'pow(mv)': lambda: o['mv'] ** o['vector'], 'pow(str)': lambda: o['mv'] ** 'x', 'grade(str)': lambda: ga.mv('A', 'grade')}
    for k, f in t.items():
        raises(rec, 'junk-method', '%s %s' % (k, a['n']), 'junk-method:' + k, f, lambda: '%s in %s' % (k, a))
    still(rec, w, rng, ga, 'after unsupported operands')


def unclaimed(op, side, i, j, x, y):
    """Python or sympy decide these, not galgebra."""
    if op == '%' and isinstance(y, (str, bytes)) and side:
        return True          # string formatting
    if side and len(op) == 2 and op[1] == '=' and op[0] in '+-*^|':
        return True          # the in-place operators of built-in containers
    if op == 'call' and (side and not callable(y) or not side and not callable(x)):
        return True
    if op == 'call' and j.startswith('own Lt') and i not in ('Ltname', 'Ltlist', 'Ltzero', 'Mltname', 'Mltfun', 'Mltvec') and i[0] != 'D':
        return True          # a transformation of a multivector
    if op == 'call' and side and j in ('lambda', 'type', 'object'):
        return True
    return False


def identity(spec, rec, rng, w):
    """A long series of algebras."""
    a = gen.algebra(rng, kinds=('euclid', 'ortho', 'nonsing'), nmax=2, nmin=1, coords=True)
    first, g = gen.build(a)
    A = first.mv('A', 'mv')
    seen, names = {first: 0}, {first.name}
    kept = [first]
    N = 320 if spec['seed'].endswith('.0') else 60
    for i in range(1, N):
        b = a if rng.random() < .5 else {'n': 1, 'basis': 'e_1,', 'g': ['1'], 'coords': ['x']}
        gb = gen.build(b)[0]
        rec.check(gb not in seen and gb.name not in names, 'ga-ne', 'series %d' % i, 'ga-series', lambda: 'algebra number %d equals an earlier one' % i)
        rec.check(not gb == first and gb != kept[-1], 'ga-ne', 'first %d' % i, 'ga-series', lambda: 'algebra number %d equals another' % i)
        if i % 10 == 0:
            for o in ('+', '*', '^', '|', '-', '<'):
                raises(rec, 'cross', 'series %s %d' % (o, i), 'cross-series', lambda: OPS[o](A, gb.mv(2)), lambda: 'A %s scalar of algebra number %d' % (o, i))
        names.add(gb.name)
        if rng.random() < .5:
            seen[gb] = i
            kept.append(gb)
        else:
            del gb
            gc.collect() if i % 50 == 0 else None
    for g2 in kept:
        rec.check(g2 == g2 and seen[g2] == seen.get(g2) and g2 in kept, 'ga-eq', g2.name, 'ga-eq', lambda: 'an algebra lost its identity')
    rec.check(A * A == first.mv(A.obj) * first.mv(A.obj), 'same-ok', 'first', 'same-eq', lambda: 'objects of the first algebra do not combine')


def inter(spec, rec, rng, w):
    """Interleaved computations in algebras with the same names, each with its own metric."""
    n = rng.choice([2, 2, 3])
    base = 'e*1|2|3'[:2 * n + 1] if rng.random() < .5 else ' '.join('abc'[:n])
    algs = []
    for _ in range(rng.choice([2, 3])):
        if rng.random() < .4:
            q = [[gen.nzrat(rng) if i == j else '0' for j in range(n)] for i in range(n)]
            s = str(rng.choice([1, 2, '1/2']))
            q[0][1] = q[1][0] = s
            gg = q
        else:
            gg = [gen.nzrat(rng) for _ in range(n)]
        ga, g = gen.build({'n': n, 'basis': base, 'g': gg, 'coords': ['x', 'y', 'z'][:n]})
        w.register(ga, g)
        algs.append(ga)
    objs = {ga.name: [] for ga in algs}
    specs = [gen.mvspec(rng, n) for _ in range(3)]
    for s in specs:
        for ga in algs:
            objs[ga.name].append(gen.mk(ga, s))
    for _ in range(14):
        ga = rng.choice(algs)
        C = w.cl(ga)
        a, b = rng.choice(objs[ga.name]), rng.choice(objs[ga.name])
        av, bv = w.val(a, ga), w.val(b, ga)
        o = rng.choice('*^|<>')
        w.judge('inter', ga, [o, av, bv], OPS[o](a, b), C.product(o, av, bv), 'beside algebras with the same names')
        other = rng.choice([x for x in algs if x is not ga])
        y = rng.choice(objs[other.name])
        o = rng.choice('*^|<>+-')
        raises(rec, 'cross', 'inter %s' % o, 'cross:inter ' + o, lambda: OPS[o](a, y), lambda: '%s of like-named algebras' % o)
