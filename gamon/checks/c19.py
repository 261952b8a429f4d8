"""C19 text output denotes the printed object."""
import re

from sympy import Function, S, Symbol, sympify

from .. import gen, geo, monitor, num, readers, ref, workload
from . import c13, c16

PROP = 'C19'
RULE = ('Random multivectors (blade and base representation, numeric/symbolic/function coefficients, derivatives of functions), differential operators, scalar operators and linear '
        'transformations are printed in each format; an independent reader evaluates the text numerically and the value must be that of the object printed, no blade may appear in two '
        'terms, lines of formats 2 and 3 must hold one grade or blade each in order, and the object must be the same afterwards. distinct_nontrivial counts distinct (kind, printed text).')
ASSUMPTIONS = ['functions are printed without arguments, so objects mentioning one function name with two argument lists are not generated']
CASE_TIMEOUT = {'quick': 20, 'thorough': 120}
REQUIRED = ['mv-fmt1', 'mv-fmt2', 'mv-fmt3', 'lines2', 'lines3', 'base', 'field', 'title', 'color', 'dop', 'dop-cmp', 'sdop', 'pdop', 'lt', 'mlt', 'unchanged', 'nowedge', 'print', 'container', 'dop-cmp-side', 'dop-side']
KINDS = ('euclid', 'ortho', 'degen', 'nonortho', 'nonsing', 'symortho', 'symnon', 'default', 'null')
MODE = 'text'


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('mv', 240), ('field', 80), ('dop', 120), ('lt', 80), ('mlt', 30)) for i in range(m * k)]


COEFS = ['1', '-1', '2', '-3', '1/2', '-2/3', 'a', '-a', 'b-a', '-a-b', 'a+b', '2*a-3*b+1', 'a*(b+1)', '-a*(b-1)', '(a-b)/c', '-(a+b)/(c**2+1)', 'a/b', '-1/a', 'a**2', '-a**2*b',
         'a**(-2)', 'sqrt(2)', '-sqrt(2)', 'sqrt(a**2+1)', 'sin(a)', '-cos(a+b)', 'sin(a)**2', 'a*sin(b)-cos(b)', 'exp(a)', 'exp(-a)*b', '1-exp(a*b)', 'a*b*c', '3*a/7', '-5*a*b/3', 'pi',
         'a-1', '1-a', '-1-a', '2*(a+1)', '(a+1)*(b-1)', '1/(a+1)', '-1/(a-b)', 'sqrt(3)/2', '1/sqrt(a**2+2)', 'cosh(a)', 'a**3-a', 'log(a**2+2)', '-sin(a)*cos(b)', 'a-b-c', 'r*th', 'th', '-ph/2',
         'a**2*b**3', '(a+b)**2', '-(a+b)**3', '(a-b)**2*c', 'tan(a)', 'a*pi/3']


def world(spec, rec, a):
    ga, g = gen.build(a)
    w = monitor.World(rec, num.Env(spec['seed'], wide=True, positive={Symbol('c', real=True)}))
    w.register(ga, g)
    return w, ga


def clear(a):
    """Basis names that are not also names of coefficients."""
    if set(a['basis'].replace(',', ' ').split()) & set('abcdfg'):
        a['basis'] = ' '.join('n' + x for x in a['basis'].replace(',', ' ').split()) if a['n'] > 1 else 'na,'
    return a


def setup(spec, name, rng):
    while True:
        r = c13.setup(spec, name, rng)
        if not {str(b) for b in r[3].basis} & set('abcdfg'):
            return r


def rcoef(rng):
    return rng.choice(COEFS)


def rmv(rng, n, style=None):
    return [[m, rcoef(rng)] for m, _ in gen.mvspec(rng, n, ('int',), style)]


def as_poly(mvval):
    return {(): mvval}


def dop_value(D, w):
    out = {}
    for A, p in D.terms:
        key = {}
        for x, k in p.pdiffs.items():
            key[x.name] = key.get(x.name, 0) + k
        v = w.val(A, D.Ga) if hasattr(A, 'Ga') else ref.clean({0: w.env.num(A)})
        out = readers.padd(out, {tuple(sorted(key.items())): v})
    return readers.pclean(out)


def sdop_value(D, w):
    out = {}
    for c, p in D.terms:
        key = tuple(sorted((x.name, k) for x, k in p.pdiffs.items()))
        out = readers.padd(out, {key: ref.clean({0: w.env.num(c)})})
    return readers.pclean(out)


def render(o, mode, **settings):
    from galgebra.printer import GaPrinter, latex
    if mode == 'text':
        return GaPrinter(settings).doprint(o) if settings else str(o)
    return latex(o, **settings)


def parse(s, ctx, mode, reps=True):
    return readers.read_text(s, ctx, reps) if mode == 'text' else readers.read_latex(s, ctx, reps)


def judge(rec, mode, kind, s, ctx, want, what, reps=True):
    """Does the printed form s denote want?"""
    rec.event(kind, s)
    try:
        got, rep = parse(s, ctx, mode)
    except readers.Unreadable as e:
        rec.violate(kind + ':unreadable', '%s prints as %r which does not read back: %s' % (what, s, e))
        return False
    if not readers.pequal(got, want):
        rec.violate(kind, '%s prints as %r which denotes %s, not %s' % (what, s, {k: monitor.show([v]) for k, v in got.items()}, {k: monitor.show([v]) for k, v in want.items()}))
        return False
    if reps and rep and not kind.startswith('base'):
        rec.violate(kind + ':repeated', '%s prints as %r, a blade occurs in several terms' % (what, s))
        return False
    return True


def judge_lines(rec, mode, fmt, s, ctx, want, what):
    """One grade (fmt 2) or one basis element (fmt 3) per line, in order."""
    kind = 'lines%d' % fmt
    rec.event(kind, s)
    lines = s.split('\n') if mode == 'text' else readers.latex_lines(s)
    v = readers.pclean(want).get((), {})
    order = sorted(v, key=lambda m: (bin(m).count('1'), ref.bits(m)))
    groups = []
    for m in order:
        if fmt == 2 and groups and bin(groups[-1][0]).count('1') == bin(m).count('1'):
            groups[-1].append(m)
        else:
            groups.append([m])
    if len(lines) > len(groups):
        # a coefficient that happens to vanish at this point
        try:
            lines = [l for l in lines if readers.pclean(parse(l, ctx, mode)[0])] or lines[:1]
        except readers.Unreadable:
            pass
    if len(lines) != max(1, len(groups)):
        rec.violate(kind, '%s in format %d has %d lines for %d %s: %r' % (what, fmt, len(lines), len(groups), 'grades' if fmt == 2 else 'blades', s))
        return
    for l, g in zip(lines, groups):
        try:
            got, _ = parse(l, ctx, mode)
        except readers.Unreadable as e:
            rec.violate(kind, '%s in format %d has unreadable line %r: %s' % (what, fmt, l, e))
            return
        if not readers.pequal(got, {(): {m: v[m] for m in g}}):
            rec.violate(kind, '%s in format %d: line %r is not the part on %s' % (what, fmt, l, g))
            return


def snapshot(A):
    return (str(A.obj), A.obj, A.is_blade_rep, A.title)


def mvcheck(rng, rec, w, ga, A, mode, kind):
    from galgebra import printer
    want = as_poly(w.val(A, ga))
    ctx = readers.Context(ga, w.env, w.cl(ga), [A.obj] + [x for r in ga.g.tolist() for x in r])
    before = snapshot(A)
    what = '%s %s' % (kind, before[0])
    s1 = render(A, mode)
    judge(rec, mode, kind + '-fmt1' if kind == 'mv' else kind, s1, ctx, want, what)
    blade = A.is_blade_rep or ga.is_ortho
    for fmt in rng.sample((1, 2, 3), 2):
        via = rng.randrange(3)
        if via == 0:
            s = render(A.Fmt(fmt), mode)
        elif via == 1:
            s = render(A, mode, galgebra_mv_fmt=fmt)
        else:
            printer.Fmt(fmt)
            try:
                s = render(A, mode)
            finally:
                printer.Fmt(1)
        judge(rec, mode, '%s-fmt%d' % ('mv' if kind == 'mv' else kind, fmt) if kind == 'mv' else kind, s, ctx, want, what + ' fmt %d' % fmt)
        if fmt > 1 and blade:
            judge_lines(rec, mode, fmt, s, ctx, want, what)
    if rng.random() < .3:
        T = rng.choice(['A', 'B_1', 'F'])
        s = render(A.Fmt(rng.choice((1, 2, 3)), T), mode)
        rec.check(s.startswith(T + ' = '), 'title', s, 'title', 'title missing in %r' % s)
        judge(rec, mode, 'title', s[len(T) + 3:], ctx, want, what, reps=blade)
    if mode == 'latex' and rng.random() < .6:
        st = rng.choice([{'omit_function_args': True}, {'omit_partial_derivative_fraction': True}, {'omit_function_args': True, 'omit_partial_derivative_fraction': True},
                         {'fold_frac_powers': True}, {'inv_trig_style': 'full'}, {'galgebra_mv_fmt': 3, 'omit_function_args': True}])
        judge(rec, mode, kind if kind != 'mv' else 'mv-fmt1', render(A, mode, **st), ctx, want, what + ' %s' % st, reps=blade)
    if mode == 'latex' and rng.random() < .3:
        s = A._repr_latex_()
        m = re.fullmatch(r'\$\\displaystyle (.*)\$', s, re.S)
        rec.check(bool(m), 'repr-latex', s, 'repr-latex', '_repr_latex_ gives %r' % s)
        if m:
            t = m.group(1)
            if A.title is not None:
                rec.check(t.startswith(A.title + ' = '), 'repr-latex', t, 'repr-title', 'title missing in %r' % t)
                t = t[len(A.title) + 3:]
            judge(rec, mode, 'repr-latex', t, ctx, want, what, reps=blade)
    if rng.random() < .25:      # a format is that of the object it is asked for
        pair = [A.Fmt(rng.choice((2, 3))), A]
        if rng.random() < .5:
            pair = tuple(pair)
        if mode == 'text':
            from galgebra.printer import GaPrinter
            s = GaPrinter().doprint(pair)
            s1_ = GaPrinter().doprint(A)
        else:
            s, s1_ = render(pair, mode), s1
        end = {'text': '])', 'latex': (r'\right]', r'\right)')}[mode][isinstance(pair, tuple)]
        rec.check(s.endswith(s1_ + end), 'container', s, 'container-format', lambda: '%s prints as %r, and after another format in one container as %r' % (what, s1_, s))
    s2 = render(A, mode)
    rec.check(s2 == s1, 'unchanged', s1, 'settings-leak', lambda: 'printed %r, and after printing in other formats %r' % (s1, s2))
    rec.check(snapshot(A) == before, 'unchanged', s1, 'object-changed', lambda: 'printing changed %s into %s' % (before, snapshot(A)))
    return ctx, want, s1


def setting_context(rng):
    pass


def run(spec, rec, mode='text'):
    from galgebra import printer
    rng = gen.rng_for(spec)
    fam = spec['family']
    if fam == 'mv':
        a = clear(gen.algebra(rng, KINDS, nmax=4, nmin=1))
        w, ga = world(spec, rec, a)
        n = ga.n
        for _ in range(3):
            style = rng.choice([None, None, 'sparse', 'vector', 'grade', 'blade', 'scalar+', 'scalar'])
            A = gen.mk(ga, rmv(rng, n, style))
            if rng.random() < .2:
                B = gen.mk(ga, rmv(rng, n, 'sparse'))
                A = A * B
            elif rng.random() < .2:
                B = gen.mk(ga, rmv(rng, n, 'sparse'))
                A = ga.mv(A.obj * (sympify(gen.parse(rng.choice(['a', '2', 'b+1'])))) + B.obj)
            kind = 'mv'
            if not ga.is_ortho and rng.random() < .35:
                A = A.base_rep()
                kind = 'base'
            if len(str(A.obj)) > 600:
                continue
            if 'wedge' in a and not a['wedge'] and kind == 'mv':
                kind = 'nowedge'
                if any(b.name.count('_') != 1 for b in ga.basis):
                    continue
            ctx, want, s1 = mvcheck(rng, rec, w, ga, A, mode, kind)
            if mode == 'text' and rng.random() < .3:
                printer.enhance_print()
                try:
                    s = str(A)
                finally:
                    printer.enhance_print(None, None, None)
                rec.check(readers.ANSI.sub('', s) == s1, 'color', s1, 'color', lambda: 'enhanced print of %r is %r' % (s1, s))
            if mode == 'text' and rng.random() < .3:
                import contextlib, io
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    print(A)
                rec.check(buf.getvalue() == s1 + '\n', 'print', s1, 'print', lambda: 'print gives %r, str %r' % (buf.getvalue(), s1))
                rec.check(repr(A) == s1, 'print', s1, 'repr', lambda: 'repr gives %r, str %r' % (repr(A), s1))
    elif fam == 'field':
        s = rng.choice([t for t in geo.systems_cached() if t['n'] <= 3 and not t['big']])
        s, env, G, ga, w = setup(spec, s['name'], rng)
        w.rec = rec
        env.wide = True
        n = ga.n
        for _ in range(2):
            k = rng.randrange(4)
            if k == 0:
                A = ga.mv(rng.choice(['A', 'F', 'B']), rng.choice(['scalar', 'vector', 'mv', 'even']) if n > 1 else 'vector', f=True)
            elif k == 1:
                A = ga.grad * ga.mv(rng.choice(['f', 'A']), rng.choice(['scalar', 'vector']), f=True)
            elif k == 2:
                f = Function('f', real=True)(*ga.coords)
                A = ga.mv(rng.choice([f.diff(ga.coords[0]), f.diff(ga.coords[-1], 2) * f, f ** 2, 1 - f.diff(ga.coords[0], ga.coords[-1]), -f])) * gen.mk(ga, rmv(rng, n, 'sparse'))
            else:
                A = geo.mvfield(ga, c13.rfield(rng, n, geo.XYZ[:n]))
                A = A.diff(ga.coords[0])
            if len(str(A.obj)) > 1200:
                continue
            mvcheck(rng, rec, w, ga, A, mode, 'field')
    elif fam == 'dop':
        dopcase(rng, spec, rec, mode)
    elif fam == 'lt':
        ltcase(rng, spec, rec, mode)
    else:
        mltcase(rng, spec, rec, mode)


def dopcase(rng, spec, rec, mode):
    from galgebra.dop import Pdop, Sdop
    name = rng.choice(c13.CONST + ['polar', 'sph', 'shear'])
    s, env, G, ga, w = setup(spec, name, rng)
    w.rec = rec
    env.wide = True
    n, xs = s['n'], geo.XYZ[:s['n']]
    for _ in range(2):
        cmp = rng.random() < .35
        k = rng.randrange(6)
        if k == 0:
            D = rng.choice(ga.grads())
        elif k == 1:
            g = ga.grads()[1 if cmp else 0]
            D = g * g if rng.random() < .5 else g + ga.mv(gen.parse('a')) if not cmp else -g
        elif k == 2:
            D1, _ = c13.mkdop(rng, ga, n, xs, cmp)
            D2, _ = c13.mkdop(rng, ga, n, xs, cmp)
            D = D1 + D2
        else:
            terms = [(gen.mk(ga, rmv(rng, n, rng.choice(['vector', 'sparse', 'blade', 'scalar']))), Pdop(c13.pad(c13.rpd(rng, xs)))) for _ in range(rng.choice([1, 2, 3]))]
            if rng.random() < .2 and not ga.is_ortho:
                terms = [(A.base_rep(), p) for A, p in terms]
            D = ga.dop(terms, cmpflg=cmp)
        want = dop_value(D, w)
        before = str([(t[0].obj, t[1].pdiffs) for t in D.terms])
        if len(before) > 1500:
            continue
        ctx = readers.Context(ga, env, w.cl(ga), [t[0].obj for t in D.terms] + [x for r in ga.g.tolist() for x in r] + list(xs))
        kind = 'dop-cmp' if D.cmpflg else 'dop'
        s1 = render(D, mode)
        ctx.sides.clear()
        judge(rec, mode, kind, s1, ctx, want, 'Dop %s' % before, reps=False)
        # an operator on the left operand is written to the left of its blades
        rec.check(('blade*D' if D.cmpflg else 'D*blade') not in ctx.sides, kind + '-side', s1, kind + '-side', lambda: 'Dop %s with cmpflg=%s prints as %r' % (before, D.cmpflg, s1))
        if mode == 'latex' and rng.random() < .3:
            judge(rec, mode, kind, render(D, mode, omit_function_args=True, omit_partial_derivative_fraction=True), ctx, want, 'Dop %s' % before, reps=False)
        if rng.random() < .3:
            s2 = render(D.Fmt(rng.choice((1, 2, 3)), 'D'), mode)
            rec.check(s2.startswith('D = '), 'title', s2, 'title', 'title missing in %r' % s2)
            judge(rec, mode, kind, s2[4:], ctx, want, 'Dop %s' % before, reps=False)
        rec.check(before == str([(t[0].obj, t[1].pdiffs) for t in D.terms]) and render(D, mode) == s1, 'unchanged', s1, 'object-changed', lambda: 'printing changed the operator %s' % before)
    # scalar operators
    t = [(gen.parse(rcoef(rng)), Pdop(c13.pad(c13.rpd(rng, xs)))) for _ in range(rng.choice([1, 2, 3]))]
    D = Sdop(t)
    if rng.random() < .3:
        D = D * Sdop(rng.choice(xs))
    ctx = readers.Context(ga, env, w.cl(ga), [c for c, _ in D.terms] + list(xs))
    judge(rec, mode, 'sdop', render(D, mode), ctx, sdop_value(D, w), 'Sdop %s' % ([(c, p.pdiffs) for c, p in D.terms],), reps=False)
    p = c13.rpd(rng, xs)
    if p or mode == 'text':
        judge(rec, mode, 'pdop', render(Pdop(c13.pad(p)), mode), ctx, readers.pd({x.name: k for x, k in p.items()}), 'Pdop %s' % p)


def lt_lines(s, mode):
    """[(basis name text, image text)]"""
    out = []
    if mode == 'text':
        for l in s.split('\n'):
            if not l.startswith('Lt(') or ') = ' not in l:
                raise readers.Unreadable('line %r' % l)
            a, b = l[3:].split(') = ', 1)
            out.append((a, b))
    else:
        t = s.replace('\\left\\{', '', 1)
        if '\\right\\}' not in t:
            raise readers.Unreadable('no closing brace')
        t = t[:t.rindex('\\right\\}')]
        for l in readers.latex_lines(t):
            a, m, b = l.partition('&\\mapsto')
            if not m:
                raise readers.Unreadable('line %r' % l)
            out.append((a, b))
    return out


def ltcase(rng, spec, rec, mode):
    a = clear(gen.algebra(rng, c16.KINDS, nmax=3, nmin=1))
    w, ga = world(spec, rec, a)
    n = ga.n
    for form in [rng.choice(c16.FORMS) for _ in range(2)] + ['sym']:
        if form == 'sym':
            L = ga.lt(rng.choice(['A', 'f']), mode=rng.choice(['g', 's', 'a'])) if n > 1 and ga.coords is not None and a['kind'] in ('euclid', 'ortho', 'nonsing') else None
            if L is None:
                continue
            Mx = L.matrix()
            M = [[w.env.num(Mx[i, j]) for j in range(n)] for i in range(n)]
            desc = 'symbolic'
        else:
            X = c16.construct(rng, w, ga, form, True)
            L, M, desc = X.L, X.M, X.desc
            if rng.random() < .3 and form != 'versor':
                L = L + L
                M = [[ref.nmul(2, x) for x in r] for r in M]
        exprs = [x for r in L.matrix().tolist() for x in r] if not L.versor else [L.V.obj]
        exprs += [x for r in ga.g.tolist() for x in r]
        if sum(len(str(x)) for x in exprs) > 1200:
            continue
        ctx = readers.Context(ga, w.env, w.cl(ga), exprs)
        s = render(L, mode)
        if rng.random() < .3:
            s2 = render(L.Fmt(title='L'), mode)
            rec.check(s2 == 'L = ' + s, 'title', s2, 'title', lambda: 'titled %r, plain %r' % (s2, s))
        if L.versor and mode == 'text':
            ok = s.startswith('R = ')
            rec.check(ok, 'lt-versor', s, 'lt-versor', lambda: 'versor prints as %r' % s)
            if ok:
                judge(rec, mode, 'lt-versor', s[4:], ctx, {(): w.val(L.V, ga)}, desc)
            continue
        kind = 'lt-versor' if L.versor else 'lt'
        try:
            lines = lt_lines(s, mode)
        except readers.Unreadable as e:
            rec.violate('lt:unreadable', '%s prints as %r: %s' % (desc, s, e))
            continue
        rec.check(len(lines) == n, kind, s, 'lt-lines', lambda: '%s prints %d lines in dimension %d: %r' % (desc, len(lines), n, s))
        for j, (l, r) in enumerate(lines[:n]):
            judge(rec, mode, kind, l, ctx, {(): {1 << j: ref.Fraction(1)}}, 'argument %d of %s' % (j, desc))
            judge(rec, mode, kind, r, ctx, {(): ref.clean({1 << i: M[i][j] for i in range(n)})}, 'image of e%d under %s' % (j, desc))


def mltcase(rng, spec, rec, mode):
    a = clear(gen.algebra(rng, ('euclid', 'ortho', 'nonsing'), nmax=3, nmin=1, coords=True))
    w, ga = world(spec, rec, a)
    from galgebra.lt import Mlt
    n = ga.n
    r = rng.choice([1, 2, 2, 3]) if n < 3 else rng.choice([1, 2])
    e = ga.mv()
    if rng.random() < .4:
        F = Mlt('T', ga, nargs=r)
    else:
        us = [gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector')) for _ in range(r)]
        k = rng.randrange(2)
        if r == 2 and k:
            f = lambda x, y: ((x | us[0]) * (y | us[1])) - (x | y)
        elif r == 1:
            f = lambda x: x | us[0]
        elif r == 2:
            f = lambda x, y: (x | us[0]) * (y | us[1])
        else:
            f = lambda x, y, z: (x | us[0]) * (y | us[1]) * (z | us[2])
        F = Mlt(f, ga)
    obj = F.fvalue.obj if hasattr(F.fvalue, 'obj') else F.fvalue
    if len(str(obj)) > 1500:
        return
    ctx = readers.Context(ga, w.env, w.cl(ga), [obj])
    want = {(): ref.clean({0: w.env.num(obj)})}
    if mode == 'text':
        judge(rec, mode, 'mlt', str(F), ctx, want, 'Mlt %s' % obj)
    else:
        for lc in (None, 1, 2, 3):
            s = render(F, mode) if lc is None else render(F.Fmt(lc), mode)
            judge(rec, mode, 'mlt', s, ctx, want, 'Mlt %s, %s per line' % (obj, lc))
        rec.check(render(F, mode) == render(F.Fmt(1), mode), 'unchanged', str(obj), 'settings-leak', 'lcnt leaks')
