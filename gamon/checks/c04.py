"""C04 grade decomposition, involutions, coefficient extraction."""
from sympy import S

from .. import gen, monitor, num, ref, workload

PROP = 'C04'
RULE = ('Random algebras; multivectors given expanded, unexpanded, with hidden cancellations, in blade or geometric-product '
        'representation and as results of products. Hooked involutions/grade projections and every query (is_scalar, is_vector, '
        'is_zero, is_base, pure_grade, grades, blade_coefs, get_coefs, components, proj, list, grade_decomposition) are compared with the '
        'reference reading of the same object. distinct_nontrivial counts distinct (query, dimension, value).')
ASSUMPTIONS = ['grade queries on symbolic multivectors are judged only where no coefficient vanishes at the random point by accident '
               '(two independent points are used)']
REQUIRED = monitor.GRADE_OPS[:1] + ['__invert__', 'g_invol', 'ccon', 'even', 'odd', 'grade', 'scalar', 'q-is_scalar', 'q-is_vector',
                                    'q-pure_grade', 'q-blade_coefs', 'q-get_coefs', 'q-components', 'q-proj', 'q-list',
                                    'q-grade_decomposition', 'q-is_base', 'q-set_coef']
OPS = monitor.GRADE_OPS
KINDS = ('euclid', 'ortho', 'degen', 'nonortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)}
            for f, m in (('invol', 300), ('query', 400), ('coef', 250), ('setcoef', 60)) for i in range(m * k)]


def operand(rng, ga, n, ck):
    """A multivector in one of several arrangements of the same content."""
    A = gen.mk(ga, gen.mvspec(rng, n, ck))
    how = rng.choice(['plain', 'plain', 'unexp', 'cancel', 'base', 'prod', 'sum'])
    if how == 'unexp':
        p = gen.parse(rng.choice(['a+1', 'b-c', '2', '(a+b)']))
        A = ga.mv(p * A.obj)
    elif how == 'cancel':
        p, q = gen.parse('a'), gen.parse('b')
        B = gen.mk(ga, gen.mvspec(rng, n, ('int',)))
        A = ga.mv(A.obj + ((p + q) * B.obj - p * B.obj - q * B.obj))
    elif how == 'base':
        A = A.base_rep()
    elif how == 'prod':
        A = A * gen.mk(ga, gen.mvspec(rng, n, ('int',)))
    elif how == 'sum':
        B = gen.mk(ga, gen.mvspec(rng, n, ('int',)))
        A = (A + B) - B
    return A, how


def supp(w1, w2, A, ga):
    """Blades with nonzero coefficients at either of two random points."""
    v1, v2 = w1.val(A, ga), w2.val(A, ga)
    tol = 1e-25
    return {k for v in (v1, v2) for k, x in v.items() if (x != 0 if ref.is_exact(x) else abs(x) > tol)}


def run(spec, rec):
    rng = gen.rng_for(spec)
    fam = spec['family']
    a = gen.algebra(rng, KINDS, nmax=5, big=.1 if fam in ('invol', 'query', 'coef') else 0)
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, OPS, a)
    w2 = monitor.World(rec, num.Env(spec['seed'] + 'second', wide=True))
    w2.metrics = w.metrics
    ck = ('int', 'rat', 'sym', 'poly', 'func') if n <= 3 else ('int', 'rat', 'sym')
    bm = num.blade_map(ga)
    flat = list(ga.blades.flat)
    flat_masks = [bm.get(b, 0) for b in flat]
    if fam == 'invol':
        with w.installed():
            for _ in range(3):
                A, how = operand(rng, ga, n, ck)
                A.rev(); ~A; A.g_invol(); A.ccon(); A.even(); A.odd()
                for r in range(n + 1):
                    A.grade(r); A[r]
                A.get_grade(rng.randrange(n + 1)); A.grade()
                A.scalar()
                B = A.rev()
                B.g_invol(); B.ccon(); B.odd()
                parts = [A.grade(r) for r in range(n + 1)]
                tot = sum(parts[1:], parts[0])
                w.judge('gradesum', ga, [w.val(A, ga)], tot, w.val(A, ga))
                from galgebra import mv as M
                v = w.val(A, ga)
                w.judge('fn-rev', ga, [v], M.rev(A), ref.rev(v))
                w.judge('fn-even', ga, [v], M.even(A), {k: x for k, x in v.items() if ref.popcount(k) % 2 == 0})
                w.judge('fn-odd', ga, [v], M.odd(A), {k: x for k, x in v.items() if ref.popcount(k) % 2})
                w.judge('fn-g_invol', ga, [v], M.g_invol(A), ref.invol(v))
                w.judge('fn-ccon', ga, [v], M.ccon(A), ref.ccon(v))
                r = rng.randrange(n + 1)
                w.judge('fn-grade', ga, [v, r], M.grade(A, r), ref.grade_part(v, r))
                w.judge('fn-scalar', ga, [v], w.val(M.scalar(A), ga), ref.grade_part(v, 0))
    elif fam == 'query':
        for _ in range(4):
            A, how = operand(rng, ga, n, ck)
            if rng.random() < .2:
                A = A - A.grade(rng.randrange(n + 1))
            if rng.random() < .1:
                A = A - A
            v = w.val(A, ga)
            s = supp(w, w2, A, ga)
            gr = sorted({ref.popcount(k) for k in s})
            key = '%s|%s|%s' % (n, how, sorted(s))
            desc = '%s (%s, support %s)' % (str(A.obj)[:300], how, [bin(k) for k in sorted(s)])

            def q(name, got, want):
                rec.check(got == want, 'q-' + name, key, 'q-' + name, lambda: '%s of %s: got %s want %s' % (name, desc, got, want))
            q('is_scalar', A.is_scalar(), gr in ([], [0]))
            q('is_vector', A.is_vector(), gr == [1])
            q('is_zero', A.is_zero(), not s)
            if s:
                q('pure_grade', A.pure_grade(), gr[0] if len(gr) == 1 else -max(gr))
            else:
                q('pure_grade', A.pure_grade(), 0)
            one = len(s) == 1 and ref.equal(v, {list(s)[0]: 1}) and ref.equal(w2.val(A, ga), {list(s)[0]: 1})
            if how in ('plain', 'base', 'sum'):
                q('is_base', bool(A.is_base()), one)
            A.characterise_Mv()
            if A.is_blade_rep or ga.is_ortho:
                q('grades', sorted(A.grades), gr or [0])
    elif fam == 'coef':
        for _ in range(3):
            A, how = operand(rng, ga, n, ck)
            v = w.val(A, ga)
            s = supp(w, w2, A, ga)
            key = '%s|%s' % (n, sorted((k, str(x)) for k, x in v.items()))

            def cmp(name, got, want):
                got = [w.env.num(x) for x in got]
                ok = len(got) == len(want) and all(ref.close(x, y) for x, y in zip(got, want))
                rec.check(ok, 'q-' + name, key, 'q-' + name,
                          lambda: '%s of %s: got %s want %s' % (name, str(A.obj)[:300], got, want))
            got = A.blade_coefs()
            cmp('blade_coefs', got, [v.get(bm.get(b, 0), 0) for b in flat])
            for x in got:
                if x.is_Mul and all(y.is_Number for y in x.args):
                    # a number, but not equal to it as an expression: blade_coefs() == [3, -2] is False
                    rec.check(False, 'q-coef-plain', str(x), 'q-coef-unevaluated', 'coefficient %s of %s is the unevaluated product %r' % (x, str(A.obj)[:200], x.args))
                else:
                    rec.event('q-coef-plain', str(x)[:60])
            sub = rng.sample(flat, min(len(flat), 3))
            cmp('blade_coefs', A.blade_coefs([ga.mv(b) for b in sub]), [v.get(bm.get(b, 0), 0) for b in sub])
            cmp('list', A.list(), [v.get(1 << i, 0) for i in range(n)]) if n else None
            if n:
                V = A.grade(1)
                cmp('get_coefs', V.get_coefs(1), [v.get(1 << i, 0) for i in range(n)])
            for r in range(n + 1):
                bl = ga.blades[r]
                if all(ref.popcount(k) == r for k in s):
                    try:
                        got = A.get_coefs(r)
                    except ValueError as e:
                        rec.violate('q-get_coefs-raised', 'get_coefs(%d) of %s (%s): %s' % (r, A.obj, how, e))
                        continue
                    cmp('get_coefs', got, [v.get(bm.get(b, 0), 0) for b in bl])
                elif how in ('plain', 'base'):
                    try:
                        A.get_coefs(r)
                        ok = False
                    except ValueError:
                        ok = True
                    rec.check(ok, 'q-get_coefs-reject', key, 'q-get_coefs-reject', 'get_coefs(%d) accepted %s' % (r, A.obj))
            comps = A.components()
            tot = {}
            seen = []
            for c in comps:
                cv = w.val(c, ga)
                tot = ref.add(tot, cv)
                seen.append(tuple(sorted(supp(w, w2, c, ga))))
            nz = [x for x in seen if x]
            w.judge('q-components', ga, [v], tot, v)
            rec.check(all(len(x) == 1 for x in nz) and len(set(nz)) == len(nz) and set(k for x in nz for k in x) == s,
                      'q-components-form', key, 'q-components-form', 'components of %s: %s' % (A.obj, seen))
            order = [x[0] for x in nz]
            rec.check(order == sorted(order, key=lambda m: flat_masks.index(m)), 'q-components-order', key, 'q-components-order', 'components of %s are not in the order of the basis blades: %s' % (A.obj, seen))
            sub = rng.sample(flat, rng.randint(0, len(flat)))
            ms = {bm.get(b, 0) for b in sub}
            w.judge('q-proj', ga, [v, sorted(ms)], A.proj([ga.mv(b) for b in sub]), {k: x for k, x in v.items() if k in ms})
            d = ga.grade_decomposition(A)
            tot = {}
            for r, P in d.items():
                pv = w.val(P, ga)
                tot = ref.add(tot, pv)
                rec.check(all(ref.popcount(k) == r or ref.close(x, 0) for k, x in pv.items()), 'q-gd-grade', key, 'q-gd-grade',
                          'grade_decomposition of %s has %s under %s' % (A.obj, P, r))
            w.judge('q-grade_decomposition', ga, [v], tot, v)
            bad = [B for B in (ga.mv(flat[0]) + ga.mv(flat[-1]), 2 * ga.mv(flat[-1])) if n]
            for B in bad:
                try:
                    A.blade_coefs([B])
                    ok = False
                except ValueError:
                    ok = True
                rec.check(ok, 'q-blade_coefs-reject', n, 'q-blade_coefs-reject', 'blade_coefs accepted the non-blade %s' % B)
    else:
        for _ in range(3):
            A = gen.mk(ga, gen.mvspec(rng, n, ck))
            v = w.val(A, ga)
            if ga.is_ortho and rng.random() < .3:
                A = A.base_rep()
            # fill the caches first
            A.is_blade(), A.is_versor() if n <= 3 else None, A.pure_grade()
            for _ in range(rng.randint(1, 3)):
                r = rng.randrange(n + 1)
                i = rng.randrange(len(ga.blades[r]))
                x = gen.parse(rng.choice(['0', '2', 'a', 'a+b', '-1']))
                A.set_coef(r, i, x)
                b = ga.blades[r][i]
                v = dict(v)
                v[bm.get(b, 0)] = w.env.num(x)
                v = ref.clean(v)
                w.judge('q-set_coef', ga, [v], A, v)
            s = supp(w, w2, A, ga)
            gr = sorted({ref.popcount(k) for k in s})
            B = ga.mv(A.obj)
            for name in ('is_scalar', 'is_vector', 'is_zero', 'is_blade', 'pure_grade'):
                x, y = getattr(A, name)(), getattr(B, name)()
                rec.check(x == y, 'q-set_coef-cache', (name, sorted(s)), 'q-set_coef-cache',
                          '%s after set_coef is %s, fresh object says %s: %s' % (name, x, y, A.obj))
            if s:
                rec.check(A.pure_grade() == (gr[0] if len(gr) == 1 else -max(gr)), 'q-set_coef-grade', sorted(s), 'q-set_coef-grade', str(A.obj))
