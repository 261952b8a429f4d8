"""C27 tables, parts, listings, older names and diagnostics agree with the primary operations."""
import contextlib
import io
import types
import warnings

from sympy import Function, Integer, Mul, S, Symbol, expand, sympify

from .. import gen, geo, monitor, num, ref

PROP = 'C27'
RULE = ('Random algebras of every metric kind: product tables looked up in random order, basis maps in both directions, parts of expressions in any arrangement '
        '(expanded or not), older names against what replaced them (with their warning), the module for the oldest interface, functions handed something that is not a multivector, and '
        'construction with debug output on and off. Values are compared with the reference algebra. distinct_nontrivial counts distinct (accessor, dimension, arguments).')
ASSUMPTIONS = ['the warning categories of older names are DeprecationWarning', 'what debug output says is not judged, only that it changes nothing']
REQUIRED = [r'table\[\*\]', r'table\[\^\]', r'table\[\|\]', r'table\[<\]', r'table\[>\]', 'table-sp', 'table-base', 'expansion', 'map-blades', 'map-bases', 'map-grades', 'listing',
            'names', 'decompose', 'split', 'remove', 'scalar', 'get_grade', 'even_odd', 'grades', 'reverse', 'old', 'old-warns', 'old-op', 'reject', 'debug', 'mv-setup', 'coords']
KINDS = ('euclid', 'ortho', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')
WARN = DeprecationWarning


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in
            (('tables', 70), ('maps', 70), ('parts', 90), ('old', 70), ('reject', 20), ('debug', 50), ('setup', 40)) for i in range(m * k)]


def ev(w, ga, e):
    """Value of an expression in the blades or bases of an algebra."""
    e = sympify(e)
    return num.mv_value(types.SimpleNamespace(obj=e, Ga=ga), w.env, ga, w.cl(ga))


@contextlib.contextmanager
def warned(rec, name):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        yield
    rec.check(any(issubclass(x.category, WARN) for x in log), 'old-warns', name, 'old-warns', 'the older name %s gives no DeprecationWarning' % name)


def old(rec, name, f):
    with warned(rec, name):
        return f()


def same(rec, ga, name, got, want, conv=lambda x: x):
    g, v = conv(got), conv(want)
    rec.check(g == v, 'old', '%s %s' % (name, ga.n), 'old:' + name, lambda: '%s is %s, not %s' % (name, str(g)[:200], str(v)[:200]))


def tables(rng, w, ga, rec):
    C, n = w.cl(ga), ga.n
    bl = list(ga.blades.flat)
    idx = list(ga.indexes.flat)
    E = {i: {ref.mask(i): ref.Fraction(1)} for i in idx}
    fn = {'*': ga.mul, '^': ga.wedge, '|': ga.hestenes_dot, '<': ga.left_contract, '>': ga.right_contract, 'sp': ga.scalar_product}
    legacy = {'*': 'mul_table_dict', '^': 'wedge_table_dict', '|': 'dot_table_dict', '<': 'left_contract_table_dict', '>': 'right_contract_table_dict'}
    limit = 8 if n > 2 and not ga.is_ortho else 20
    for _ in range(limit):
        i, j = rng.randrange(len(bl)), rng.randrange(len(bl))
        op = rng.choice(list(fn))
        want = C.sprod(E[idx[i]], E[idx[j]]) if op == 'sp' else C.product(op, E[idx[i]], E[idx[j]])
        how = rng.choice(['table', 'table', 'of', 'legacy', 'deprecated', 'call'])
        a, b = bl[i], bl[j]
        if how == 'legacy' and op in legacy:
            r = old(rec, legacy[op], lambda: getattr(ga, legacy[op]))[a, b]
        elif how == 'deprecated' and op in '*^':
            m = {'*': 'geometric_product_basis_blades', '^': 'wedge_product_basis_blades'}[op]
            r = old(rec, m, lambda: getattr(ga, m)((a, b)))
        elif how == 'deprecated' and op in '|<>':
            m = 'dot_product_basis_blades' if ga.is_ortho else 'non_orthogonal_dot_product_basis_blades'
            r = old(rec, m, lambda: getattr(ga, m)((a, b), op))
        elif how == 'of':
            r = fn[op].of_basis_blades(a, b)
        elif how == 'call':
            r = fn[op](a, b)
        else:
            r = fn[op].table_dict[a, b]
        w.judge('table-sp' if op == 'sp' else 'table[%s]' % op, ga, [how, idx[i], idx[j]], ev(w, ga, r), want, extra='%s of %s and %s' % (how, a, b))
    if not ga.is_ortho and n <= 3:
        basew = {}
        for i in idx:
            P = {0: ref.Fraction(1)}
            for k in i:
                P = C.gp(P, {1 << k: ref.Fraction(1)})
            basew[i] = P
        bs = list(ga.bases.flat)
        t = ga.basic_mul.table_dict
        keys, vals, both = (old(rec, 'basic_mul_' + s, lambda: getattr(ga, 'basic_mul_' + s)) for s in ('keys', 'values', 'table'))
        same(rec, ga, 'basic_mul_keys', keys, list(t.keys()))
        same(rec, ga, 'basic_mul_values', vals, list(t.values()))
        same(rec, ga, 'basic_mul_table', both, list(t.items()))
        same(rec, ga, 'basic_mul_table_dict', old(rec, 'basic_mul_table_dict', lambda: ga.basic_mul_table_dict), t)
        for _ in range(8):
            i, j = rng.randrange(len(bs)), rng.randrange(len(bs))
            how = rng.choice(['of', 'table', 'old', 'call'])
            r = (ga.basic_mul.of_basis_bases(bs[i], bs[j]) if how == 'of' else t[bs[i] * bs[j]] if how == 'table' else ga.basic_mul(bs[i], bs[j]) if how == 'call' else
                 old(rec, 'non_orthogonal_bases_products', lambda: ga.non_orthogonal_bases_products((bs[i], bs[j]))))
            w.judge('table-base', ga, [how, idx[i], idx[j]], ev(w, ga, r), C.gp(basew[idx[i]], basew[idx[j]]), extra='%s of %s and %s' % (how, bs[i], bs[j]))
        order = ['base', 'blade']
        rng.shuffle(order)
        for o in order:
            if o == 'blade':
                d = rng.choice([lambda: ga.blade_expansion_dict, lambda: dict(old(rec, 'blade_expansion', lambda: ga.blade_expansion))])()
                for i, b in zip(idx, bl):
                    w.judge('expansion', ga, [i, 'blade'], ev(w, ga, d[b]), E[i], extra='the expansion of blade %s' % b)
                    rec.check(all(x in bs or x.is_commutative for x in sympify(d[b]).free_symbols), 'expansion', str(b), 'expansion-kind', 'the expansion of blade %s is not in bases' % b)
            else:
                d = rng.choice([lambda: ga.base_expansion_dict, lambda: dict(old(rec, 'base_expansion', lambda: ga.base_expansion))])()
                for i, b in zip(idx, bs):
                    w.judge('expansion', ga, [i, 'base'], ev(w, ga, d[b]), basew[i], extra='the expansion of base %s' % b)
                    rec.check(all(x in bl or x.is_commutative for x in sympify(d[b]).free_symbols), 'expansion', str(b), 'expansion-kind', 'the expansion of base %s is not in blades' % b)


def maps(rng, w, ga, rec):
    import itertools
    n = ga.n
    want = [tuple(itertools.combinations(range(n), r)) for r in range(n + 1)]
    flat = [i for g in want for i in g]
    rec.check([tuple(g) for g in ga.indexes] == want and list(ga.indexes.flat) == flat, 'listing', str(n), 'listing', 'the indexes are %s' % (ga.indexes,))
    e = ga.mv()
    fam = [('blades', ga.blades, ga.indexes_to_blades_dict, ga.blades_to_grades_dict)]
    if ga.is_ortho:
        with contextlib.suppress(ValueError):
            ga.bases
            rec.check(False, 'reject', 'bases', 'reject', 'an orthogonal algebra lists bases apart from its blades')
    else:
        fam.append(('bases', ga.bases, ga.indexes_to_bases_dict, ga.bases_to_grades_dict))
    for nm, sy, d, gr in fam:
        rec.check([len(g) for g in sy] == [len(g) for g in want] and len(set(sy.flat)) == 1 << n, 'listing', nm, 'listing', 'the %s are %s' % (nm, sy))
        for i in rng.sample(flat, min(len(flat), 8)):
            s = d[i]
            rec.check(d.inverse[s] == i and d.inverse.inverse[i] == s and sy.flat[flat.index(i)] == s and s in sy[len(i)], 'map-' + nm, str(i), 'map', '%s and index %s do not name each other' % (s, i))
            rec.check(gr[s] == len(i), 'map-grades', str(i), 'map-grades', 'grade of %s is %s' % (s, gr[s]))
            P = ga.mv(S.One)
            for k in i:
                P = P ^ e[k] if nm == 'blades' else P * e[k]
            w.judge('map-' + nm, ga, [i], ev(w, ga, s), w.val(P, ga), extra='the symbol for index %s' % (i,))
        name = {'blades': ('blades_to_indexes', 'blades_to_indexes_dict', 'indexes_to_blades', 'blades_lst'),
                'bases': ('bases_to_indexes', 'bases_to_indexes_dict', 'indexes_to_bases', 'bases_lst')}[nm]
        same(rec, ga, name[0], old(rec, name[0], lambda: getattr(ga, name[0])), [(s, i) for i, s in zip(flat, sy.flat)], lambda x: list(x))
        same(rec, ga, name[1], old(rec, name[1], lambda: getattr(ga, name[1])), {s: i for i, s in zip(flat, sy.flat)}, lambda x: dict(x))
        same(rec, ga, name[2], old(rec, name[2], lambda: getattr(ga, name[2])), list(zip(flat, sy.flat)), lambda x: list(x))
        same(rec, ga, name[3], old(rec, name[3], lambda: getattr(ga, name[3])), list(sy.flat)[1:])
    same(rec, ga, 'indexes_lst', old(rec, 'indexes_lst', lambda: ga.indexes_lst), flat[1:])
    rec.check(len(ga.mv_blades.flat) == 1 << n and [m.obj for m in ga.mv_blades.flat] == list(ga.blades.flat), 'listing', 'mv_blades', 'listing', 'mv_blades is %s' % (ga.mv_blades,))
    rec.check(tuple(ga.basis_vectors()) == tuple(ga.basis) == tuple(m.obj for m in e), 'listing', 'basis', 'listing', 'basis_vectors() is %s' % (ga.basis_vectors(),))
    if n and all(any(c.isdigit() for c in str(b)) for b in ga.basis):
        pre = rng.choice([None, 'e', 'b', 'E_'])
        d = ga.bases_dict() if pre is None else ga.bases_dict(pre)
        names = {(pre or 'e') + ''.join(c for c in str(s) if c.isdigit()): s for s in ga.blades.flat[1:]}
        rec.check(d == names and len(d) == (1 << n) - 1, 'names', '%s %s' % (pre, n), 'names', 'bases_dict(%r) is %s' % (pre, d))
        for k in range(n):
            q = ''.join(c for c in str(ga.basis[k]) if c.isdigit())
            rec.check(d[(pre or 'e') + q] == ga.basis[k], 'names', str(k), 'names', 'bases_dict does not name %s by its index' % ga.basis[k])
    else:
        rec.event('names', 'none')


def arrange(rng, e):
    """The same multivector expression written another way."""
    r = rng.random()
    e = sympify(e)
    if r < .35:
        return expand(e)
    c = rng.choice([Symbol('a', real=True), Symbol('b', real=True) + 1, Integer(2), Integer(-3)])
    if r < .7:
        return Mul(c, expand(e), evaluate=False)
    if r < .85:
        return c * e + e
    return e


def parts(rng, w, ga, rec):
    n = ga.n
    ck = ('int', 'rat', 'sym', 'poly', 'func')
    for _ in range(5):
        A = gen.mk(ga, gen.mvspec(rng, n, ck))
        obj = arrange(rng, A.obj)
        mvarg = rng.random() < .5
        v = ev(w, ga, obj)
        X = ga.mv(obj) if mvarg else obj
        if mvarg:
            w.judge('scalar', ga, [v], ev(w, ga, X.obj), v, extra='%s as it stands' % obj)
        key = [v, mvarg]
        d = ga.grade_decomposition(X if mvarg else expand(obj))
        tot = {}
        for r in d:
            p = w.val(d[r], ga) if mvarg else ev(w, ga, d[r])
            w.judge('decompose', ga, key + [r], p, ref.grade_part(v, r), extra='grade %s of %s' % (r, obj))
            rec.check((hasattr(d[r], 'Ga')) == mvarg, 'decompose', str(r), 'decompose-type', 'the parts of %s are %s' % (type(X), type(d[r])))
            tot = ref.add(tot, p)
        w.judge('decompose', ga, key + ['sum'], ref.clean(tot), v, extra='the sum of the parts of %s' % obj)
        a, Ap = ga.split_multivector(X)
        w.judge('split', ga, key + [0], ev(w, ga, a), ref.grade_part(v, 0), extra='the commutative part of %s' % obj)
        w.judge('split', ga, key + [1], ev(w, ga, Ap), ref.sub(v, ref.grade_part(v, 0)), extra='the non-commutative part of %s' % obj)
        w.judge('remove', ga, key, ev(w, ga, ga.remove_scalar_part(X)), ref.sub(v, ref.grade_part(v, 0)), extra='remove_scalar_part of %s' % obj)
        w.judge('scalar', ga, key, ev(w, ga, ga.scalar_part(X)), ref.grade_part(v, 0), extra='scalar_part of %s' % obj)
        o = expand(obj) if rng.random() < .5 else obj
        for r in range(n + 1):
            w.judge('get_grade', ga, [v, r], ev(w, ga, ga.get_grade(expand(obj), r)), ref.grade_part(v, r), extra='get_grade %d of %s' % (r, obj))
        for even in (True, False):
            w.judge('even_odd', ga, [v, even], ev(w, ga, ga.even_odd(o, even)), {k: x for k, x in v.items() if ref.popcount(k) % 2 == (not even)}, extra='even_odd(%s, %s)' % (o, even))
        w.judge('reverse', ga, [v], ev(w, ga, ga.reverse(o)), ref.rev(v), extra='reverse of %s' % o)
        gr = sorted({ref.popcount(k) for k in v}) or [0]
        got = ga.grades(o)
        rec.check(set(gr) <= set(got) and (set(got) == set(gr) or expand(o).atoms(Function) or any(len(str(c)) > 12 for _, c in [(0, o)])), 'grades', str(o), 'grades', 'grades of %s are %s, not %s' % (o, got, gr))


def legacy(rng, w, ga, rec, n, co):
    from galgebra.dop import Pdop, Sdop
    from galgebra.lt import Lt
    w.judge('old-op', ga, ['mv_I'], old(rec, 'mv_I', lambda: ga.mv_I), {(1 << n) - 1: ref.Fraction(1)}, extra='mv_I')
    x = old(rec, 'mv_x', lambda: ga.mv_x)
    rec.check(x.Ga == ga and {ref.popcount(k) for k in w.val(x, ga)} <= {1} and len(x.obj.free_symbols) == 2 * n, 'old', 'mv_x', 'old:mv_x', 'mv_x is %s' % x)
    if co:
        X = {1 << k: w.env.num(c) for k, c in enumerate(co)}
        w.judge('coords', ga, ['coord_vec'], ev(w, ga, ga.coord_vec), X, extra='the coordinate vector')
        for nm, f in (('X()', lambda: ga.X()), ('lt_x', lambda: ga.lt_x), ('Lt.setup', lambda: Lt.setup(ga)[1])):
            w.judge('old-op', ga, [nm], ev(w, ga, old(rec, nm, f)), X, extra=nm)
        same(rec, ga, 'lt_coords', old(rec, 'lt_coords', lambda: ga.lt_coords), tuple(co), tuple)
        same(rec, ga, 'Lt.setup', old(rec, 'Lt.setup', lambda: Lt.setup(ga))[0], tuple(co), tuple)
        f = gen.parse(gen.coef(rng, 'xpoly')) + gen.parse(gen.coef(rng, 'xfunc'))
        for k, c in enumerate(co):
            d = w.env.num(f.diff(c))
            for nm, op in (('Pdiffs', lambda: ga.Pdiffs[c]), ('sPds', lambda: ga.sPds[c]), ('pdop', lambda: ga.pdop(c)), ('sdop', lambda: ga.sdop(c))):
                w.judge('old-op', ga, [nm, f, c], w.val(old(rec, nm, op) * f, ga), ref.clean({0: d}), extra='%s of %s by %s' % (nm, f, c))
        same(rec, ga, 'Pdiffs', set(old(rec, 'Pdiffs', lambda: ga.Pdiffs)), set(co))
        same(rec, ga, 'sPds', set(old(rec, 'sPds', lambda: ga.sPds)), set(co))
        rec.check(old(rec, 'Pdiffs', lambda: ga.Pdiffs)[co[0]] == Pdop(co[0]) and old(rec, 'sPds', lambda: ga.sPds)[co[0]] == Sdop(co[0]), 'old', 'ops', 'old:ops', 'Pdiffs or sPds differ from Pdop or Sdop')
    w.judge('old-op', ga, ['Pdop_identity'], w.val(old(rec, 'Pdop_identity', lambda: ga.Pdop_identity) * Symbol('u', real=True), ga), {0: w.env.num(Symbol('u', real=True))}, extra='Pdop_identity')
    # linear maps
    if n:
        kind = rng.choice(['g', 's', 'a', 'x'])
        M = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        if kind == 's':
            M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        elif kind == 'a':
            M = [[0 if i == j else M[i][j] if i < j else -M[j][i] for j in range(n)] for i in range(n)]
        M = [[S(v) for v in r] for r in M]
        if kind == 'x' and co:
            M[0][0] = sum(co) + 1
        from sympy import Matrix
        L = ga.lt(Matrix(M))
        T = [list(r) for r in zip(*M)]
        want = 's' if M == T else 'a' if M == [[-v for v in r] for r in T] else 'g'
        same(rec, ga, 'Lt.mode', old(rec, 'Lt.mode', lambda: L.mode), want)
        if co:
            same(rec, ga, 'Lt.coords', old(rec, 'Lt.coords', lambda: L.coords), tuple(co), tuple)
            w.judge('old-op', ga, ['Lt.X'], ev(w, ga, old(rec, 'Lt.X', lambda: L.X)), X, extra='Lt.X')
            same(rec, ga, 'Lt.fct_flg', old(rec, 'Lt.fct_flg', lambda: L.fct_flg), kind == 'x')
        else:
            same(rec, ga, 'Lt.fct_flg', old(rec, 'Lt.fct_flg', lambda: L.fct_flg), False)


NOTMV = [3, S(2), Symbol('a', real=True), 'A', None, [1, 2], 1.5]


def reject(rng, w, ga, rec):
    from galgebra import mv as m
    from galgebra.dop import Sdop, Pdop
    from galgebra.ga import Ga
    A = gen.mk(ga, gen.mvspec(rng, ga.n, ('int', 'sym'), 'dense'))
    x, y = Symbol('x', real=True), Symbol('y', real=True)
    polar = Ga('e_x e_y', g=[1, x**2], coords=(x, y))
    bad = rng.choice(NOTMV)
    calls = {'dual': lambda: m.dual(bad), 'undual': lambda: m.undual(bad), 'even': lambda: m.even(bad), 'odd': lambda: m.odd(bad), 'g_invol': lambda: m.g_invol(bad), 'grade': lambda: m.grade(bad, 1),
             'inv': lambda: m.inv(bad), 'shirokov_inverse': lambda: m.shirokov_inverse(bad), 'hitzer_inverse': lambda: m.hitzer_inverse(bad), 'qform': lambda: m.qform(bad), 'norm2': lambda: m.norm2(bad),
             'norm': lambda: m.norm(bad), 'mag2': lambda: m.mag2(bad), 'mag': lambda: m.mag(bad), 'proj': lambda: m.proj(A, bad), 'rev': lambda: m.rev(bad),
             'ccon': lambda: m.ccon(bad), 'scalar': lambda: m.scalar(bad), 'sp': lambda: m.sp(bad, A), 'refl': lambda: m.refl(A, bad), 'rot': lambda: m.rot(A, bad)}
    for nm, f in calls.items():
        try:
            r = f()
        except (ValueError, TypeError):
            rec.event('reject', '%s %s' % (nm, bad))
        else:
            rec.violate('reject:' + nm, '%s accepts %r, which is no multivector, and returns %s' % (nm, bad, r))
    for nm, f in (('Mul', lambda: ga.Mul(A.obj, A.obj, mode=rng.choice(['+', 'x', '&', '**', '<<']))), ('Sdop', lambda: Sdop([1, 2], [Pdop({})])), ('Sdop list', lambda: Sdop(3, 4)),
                  ('sm', lambda: Ga('e_a e_b', g=[1, 1]).sm([1], None, 3)), ('christoffel', lambda: polar.Christoffel_symbols(mode=rng.choice([0, 3, 'x']))), ('sp-switch', lambda: m.sp(A, A, 'x')),
                  ('grade_decomposition', lambda: ga.mv('A', 'nosuchtype'))):
        try:
            r = f()
        except (ValueError, TypeError):
            rec.event('reject', nm)
        except Exception as e:
            if nm in ('sm', 'christoffel'):
                rec.event('reject', nm)
            else:
                rec.violate('reject:' + nm, '%s raises %r' % (nm, e))
        else:
            rec.violate('reject:' + nm, '%s accepts a wrong argument and returns %s' % (nm, r))
    keep = ga.dot_mode
    for bm in ('*', '^'):
        ga.dot_mode = bm
        try:
            ga.dot(A.obj, A.obj)
            rec.violate('reject:dot', 'dot with dot_mode %r is accepted' % bm)
        except ValueError:
            rec.event('reject', 'dot' + bm)
    ga.dot_mode = keep


def snapshot(w, ga, rng, A, fields):
    """Values that describe an algebra, each with a name."""
    from .. import ref
    out = {}
    e = ga.mv()
    n = ga.n
    for i in range(n):
        for j in range(n):
            out['g%d%d' % (i, j)] = ref.clean({0: w.env.num(ga.g[i, j])})
    out['prod'] = w.val(ga.mv(A(ga)) * ga.mv(A(ga)), ga)
    out['dot'] = w.val(ga.mv(A(ga)) | ga.mv(A(ga)), ga)
    if not fields.get('sing'):
        for i, x in enumerate(ga.mvr()):
            out['r%d' % i] = w.val(x, ga)
    if ga.coords is not None and not fields.get('sing'):
        f = gen.parse('x**2*y+x') if not fields.get('f') else fields['f']
        out['grad'] = w.val(ga.grad * ga.mv(f), ga)
        out['gradv'] = w.val(ga.grad * (ga.mv(f) * e[-1]), ga)
        out['rgradv'] = w.val((ga.mv(f) * e[0]) * ga.rgrad, ga)
    return out


def debug(rng, w0, rec, spec):
    from galgebra.ga import Ga
    kind = rng.choice(['metric', 'metric', 'coords', 'coords', 'X', 'sm'])
    w = w0
    buf = io.StringIO()
    names = None
    x, y, z = (Symbol(s, real=True) for s in 'xyz')
    fields = {'f': x**2 + 3 * x}
    tail = lambda ga, r: sum((S(rng_.randint(-3, 3)) * b for b in ga.blades.flat), S.One) if (rng_ := __import__('random').Random(r)) else 0
    r = rng.random()

    def build(dbg):
        kw = {'debug': True} if dbg else {}
        if kind == 'metric':
            return build_like(a, kw)
        if kind == 'coords':
            return Ga('e_1 e_2', g=gm, coords=(x, y), norm=norm, **kw)
        if kind == 'X':
            return Ga('u v', X=[x * y, x - y, x + y**2], coords=(x, y), norm=norm, **kw)
        base = Ga('E_1 E_2 E_3', g=[1, 1, 1], coords=tuple(Symbol(s, real=True) for s in 'XYZ'))
        return base.sm(emb, (x, y), norm=norm, **kw)

    def build_like(a, kw):
        g = a['g']
        if g is not None:
            g = [[gen.parse(t) for t in q] for q in g] if g and isinstance(g[0], list) else [gen.parse(t) for t in g]
        return Ga(a['basis'], **({'g': g} if g is not None else {}), **kw)
    norm = rng.random() < .4
    a = gen.algebra(rng, KINDS, nmax=3, nmin=1, coords=False)
    a.pop('wedge', None)
    gm = rng.choice([[1, x**2], [y**2 + 1, x**2 + 1], [[1, x], [x, 1 + 2 * x**2]], [[2, 0], [0, 1 + x**2]]])
    if kind == 'X' or isinstance(gm[0], list) and gm[0][1] != 0:
        norm = False
    emb = [x * gen.parse('cos(y)'), x * gen.parse('sin(y)'), x**2]
    if kind == 'metric':
        C = ref.Clifford(num.metric_value(gen.metric_of(a), w.env)) if a['g'] is not None else None
        fields['sing'] = C is not None and ref.det([list(q) for q in C.g]) == 0
    try:
        with contextlib.redirect_stdout(buf):
            P = build(True)
        Q = build(False)
    except Exception as e:
        rec.violate('debug:raise', 'construction with debug=%s fails for %s: %r' % (buf.getvalue() != '', (kind, a['g'] if kind == 'metric' else gm), e))
        return
    out = []
    for ga, ctx in ((P, contextlib.redirect_stdout(buf)), (Q, contextlib.nullcontext())):
        w._cl.clear()
        w.metrics.clear()
        with ctx:
            out.append(snapshot(w, ga, rng, lambda g: tail(g, r), fields))
    for k in out[1]:
        w.judge('debug', Q, [kind, k, str(a['g'] if kind == 'metric' else gm), norm], out[0].get(k, {0: ref.Fraction(99)}), out[1][k], extra='%s of %s with and without debug' % (k, kind))


def setup(rng, w, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from galgebra.deprecated import MV, ReciprocalFrame
        n = rng.choice([2, 2, 3])
        names = ' '.join('e_%d' % (i + 1) for i in range(n))
        g = [rng.choice([1, -1, 2]) for _ in range(n)]
        how = rng.choice(['str', 'str', 'list', 'nonortho', 'coords'])
        co = None
        if how == 'str':
            metric = rng.choice(['[%s]', '[ %s ]', '[%s]']) % ','.join(map(str, g))
            if metric.startswith('[ '):
                metric = metric.replace(',', ' , ')
        elif how == 'nonortho':
            G = [[S(g[i]) if i == j else S.Zero for j in range(n)] for i in range(n)]
            G[0][1] = G[1][0] = S(rng.choice([3, 5, -3]))         # never singular
            metric = ','.join(' '.join(str(v) for v in r) for r in G)
        else:
            metric = list(g)
            if how == 'coords':
                co = tuple(Symbol(s, real=True) for s in 'xyz'[:n])
        if how != 'nonortho':
            G = [[S(g[i]) if i == j else S.Zero for j in range(n)] for i in range(n)]
        out = MV.setup(names, metric=metric, **({'coords': co} if co else {}))
        ga = MV.GA
        w.register(ga, G)
        C = w.cl(ga)
        e = out[:n]
        rec.check(len(out) == n + (co is not None), 'mv-setup', str(metric), 'mv-setup', 'setup returns %s' % (out,))
        for i in range(n):
            for j in range(n):
                w.judge('mv-setup', ga, [metric, i, j], e[i] * e[j], C.gp({1 << i: ref.Fraction(1)}, {1 << j: ref.Fraction(1)}), extra='e%d e%d for metric %r' % (i, j, metric))
                rec.check(MV.metric[i, j] == G[i][j], 'mv-setup', '%s %s' % (i, j), 'mv-setup', 'MV.metric[%d, %d] is %s' % (i, j, MV.metric[i, j]))
        i2 = C.gp(w.val(MV.I, ga), w.val(MV.I, ga))
        rec.check(set(w.val(MV.I, ga)) == {(1 << n) - 1} and ref.close(abs(ref.scalar(i2)), 1) and ref.equal(i2, ref.grade_part(i2, 0)), 'mv-setup', 'I', 'mv-setup', 'MV.I is %s' % MV.I)
        if co:
            f = gen.parse(gen.coef(rng, 'xpoly')) + co[0]**2
            D = out[n] * ga.mv(f)
            w.judge('mv-setup', ga, [f], D, ref.clean({1 << k: w.env.num(f.diff(c)) / Fr(g[k]) for k, c in enumerate(co)}), extra='grad of %s' % f)
            w.judge('mv-setup', ga, [f, 'r'], ga.mv(f) * MV.rgrad, ref.clean({1 << k: w.env.num(f.diff(c)) / Fr(g[k]) for k, c in enumerate(co)}), extra='rgrad of %s' % f)
        ty = rng.choice(['vector', 'scalar', 'bivector', 'spinor', 'mv'])
        A = MV('A', ty) if rng.random() < .6 or not co else MV('A', ty, fct=True)
        B = ga.mv('A', ty, **({'f': True} if A.obj.atoms(Function) else {}))
        w.judge('mv-setup', ga, [ty], w.val(A, ga), w.val(B, ga), extra='MV(A, %s)' % ty)
        w.judge('mv-setup', ga, [ty, 'prod'], A * e[0], C.gp(w.val(B, ga), {1: ref.Fraction(1)}), extra='the product of MV(A, %s)' % ty)
        fmt = rng.choice([1, 2, 3])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = A.Fmt(fmt, rng.choice([None, 'A']))
        rec.check(r is None and buf.getvalue().endswith('\n') and len(buf.getvalue()) > 1, 'mv-setup', 'fmt', 'mv-setup:fmt', 'MV.Fmt returns %r and prints %r' % (r, buf.getvalue()))
        fr = [e[0] + 2 * e[1], e[0] - e[1]]
        mode = rng.choice([None, 'norm', 'append'])
        if how != 'nonortho':
            R = ReciprocalFrame(fr) if mode is None else ReciprocalFrame(fr, mode)
            Q = ga.ReciprocalFrame(fr) if mode is None else ga.ReciprocalFrame(fr, mode)
            rec.check(len(R) == len(Q), 'mv-setup', 'frame', 'mv-setup', 'frames of different lengths')
            for a, b in zip(R, Q):
                w.judge('mv-setup', ga, ['frame', mode], w.val(a, ga), w.val(b, ga), extra='the reciprocal frame in mode %s' % mode)


def Fr(x):
    return ref.Fraction(x)


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    w = monitor.World(rec, num.Env(spec['seed'], wide=True))
    if fam == 'debug':
        return debug(rng, w, rec, spec)
    if fam == 'setup':
        return setup(rng, w, rec)
    a = gen.algebra(rng, KINDS, nmax=4 if fam in ('maps', 'parts', 'old') else 3, nmin=0 if fam in ('maps', 'parts') else 1, big=.1 if fam == 'parts' else 0, coords=rng.random() < .6 if fam == 'old' else False)
    ga, g = gen.build(a)
    w.register(ga, g)
    if fam == 'tables':
        tables(rng, w, ga, rec)
    elif fam == 'maps':
        maps(rng, w, ga, rec)
    elif fam == 'parts':
        parts(rng, w, ga, rec)
    elif fam == 'old':
        legacy(rng, w, ga, rec, a['n'], [Symbol(c, real=True) for c in a['coords']] if a.get('coords') else None)
    else:
        reject(rng, w, ga, rec)
