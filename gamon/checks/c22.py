"""C22 operations neither alter operands nor depend on history."""
import os
import pickle
import contextlib
import io

from sympy import Function, Matrix, S, Symbol, cos, expand, simplify, sin, symbols, trigsimp

from .. import gen, monitor, num, ref
from . import c13, c16, c17

PROP = 'C22'
RULE = ('hist: random computations of every kind (products, inverses, duals, frames, derivatives, operators, linear and multilinear maps, submanifolds, text) are run alone on a '
        'freshly built algebra in a forked process, then in one process in random order, repeated, interleaved with other computations, near copies of themselves (the same coefficients on other blades and the like), failing operations and like-named algebras, and '
        'must give the same values. immut: random operations on pools of multivectors, operators, maps and argument containers, with a snapshot of value, text, LaTeX and query answers of '
        'each object, and of the algebra, compared before and after. answers: the result of an operation on a multivector of which questions were asked before must answer the same questions as the result of the same operation on an unasked twin. distinct_nontrivial counts distinct (computation or operation, dimension, operands).')
ASSUMPTIONS = ['explicit setters (set_coef, dual_mode, display settings) are excluded as they exist to change state; dual_mode is put back before another computation looks']
CASE_TIMEOUT = {'quick': 25, 'thorough': 120}
FRESH = True
REQUIRED = ['hist-.*', 'hist-again', 'immut-.*', 'alias', 'algebra', 'probe', 'error-kept', 'args', 'query', 'neighbour', 'near', 'answers']
KINDS = ('euclid', 'ortho', 'ortho', 'nonsing', 'nonsing', 'null', 'symortho')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('hist', 190), ('immut', 150), ('answers', 60)) for i in range(m * k)]


# ---------------------------------------------------------------- computations

VARIANT = [0]


def sibling(A, ga, v):
    """A near copy of A: the same coefficients on other blades, the same blades with other coefficients."""
    d = ga.indexes_to_blades_dict
    terms = [(i, c) for (i, b), c in zip(d.items(), A.blade_coefs([ga.mv(b) for b in d.values()])) if c != 0]
    if not terms or A.is_scalar():
        return A * v
    idx, cs = [i for i, c in terms], [c for i, c in terms]
    if v == 1:
        cs = cs[1:] + cs[:1]
    elif v == 2:
        idx = [tuple(sorted((k + 1) % ga.n for k in i)) for i in idx]
    elif v == 3:
        cs = [-cs[0]] + cs[1:]
    else:
        cs = [2 * c for c in cs]
    return ga.mv(sum((c * d[i] for i, c in zip(idx, cs)), S.Zero))


def _mv(r, ga, kinds=('int', 'rat', 'sym'), style=None):
    A = gen.mk(ga, gen.mvspec(r, ga.n, kinds, style))
    return sibling(A, ga, VARIANT[0]) if VARIANT[0] else A


def _nz(r, ga, style=None):
    while True:
        A = _mv(r, ga, ('int',), style)
        if A.obj != 0:
            return A


def c_product(r, ga, w):
    A, B, C = _mv(r, ga), _mv(r, ga), _mv(r, ga, ('int',))
    if not ga.is_ortho and r.random() < .3:
        A = A.base_rep()
    o = c13.app(r.choice('*^|<>'), A, B)
    return [o, c13.app(r.choice('*^|<>'), o, C), A + o, A - 2, (A >> C)]


def c_involution(r, ga, w):
    A = _mv(r, ga)
    return [A.rev(), A.g_invol(), A.ccon(), A.even(), A.odd(), A.get_grade(r.randint(0, ga.n)), A.pure_grade(), A.is_scalar()]


def c_inverse(r, ga, w):
    A = _nz(r, ga, r.choice(['vector', 'blade', 'sparse', 'scalar']))
    return [A.inv() if r.random() < .5 else A.shirokov_inverse(), 1 / (A * A + 7) if r.random() < .3 else A]


def c_dual(r, ga, w):
    old = ga.dual_mode_value
    mode = r.choice(['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-'])
    A = _mv(r, ga)
    try:
        ga.dual_mode(mode)
        out = [A.dual(), A.undual(), A.dual().undual()]
        if r.random() < .3:
            try:
                ga.dual_mode('nonsense')
            except ValueError:
                pass
            out.append(A.dual())
    finally:
        ga.dual_mode(old)
    return out + [A.dual()]


def c_pseudo(r, ga, w):
    return [ga.E(), ga.I(), ga.i_inv, ga.e_sq, ga.I() * ga.i_inv]


def c_recip(r, ga, w):
    e, f = ga.mv(), ga.mvr()
    g = ga.mvr(norm=False)
    return [f[i] for i in range(ga.n)] + [f[0] | e[-1], g[0] | e[0]] + [ga.g_inv if r.random() < .7 else 1]


def c_frame(r, ga, w):
    vs = [_mv(r, ga, ('int',), 'vector') for _ in range(r.randint(1, ga.n))]
    return list(ga.ReciprocalFrame(vs, mode=r.choice(['norm', 'append'])))


def c_query(r, ga, w):
    A = _nz(r, ga, r.choice(['vector', 'blade', 'sparse', 'scalar', 'grade']))
    return [A.is_blade(), A.is_versor(), A.is_vector(), A.is_zero(), A.is_base(), A.qform(), A.blade_coefs()[0], list(A.get_coefs(1)) if A.is_vector() else 0]


def c_exp(r, ga, w):
    B = _nz(r, ga, r.choice(['blade', 'vector', 'scalar', 'sparse']))
    return [B.exp(), B.exp(hint='+')]


def c_rep(r, ga, w):
    A = _mv(r, ga)
    return [A.base_rep(), A.base_rep().blade_rep(), A.base_rep() * A, A == A.base_rep()]


def _fld(r, ga):
    F = c13.rfield(r, ga.n, list(ga.coords))
    d = ga.indexes_to_blades_dict
    A = ga.mv(sum((c * d[tuple(ref.bits(m))] for m, c in F.items()), S.Zero))
    return sibling(A, ga, VARIANT[0]) if VARIANT[0] else A


def c_grad(r, ga, w):
    F = _fld(r, ga)
    g, rg = ga.grads()
    op = r.choice('*^|<>')
    return [c13.app(op, g, F), c13.app(op, F, rg), c13.app(op, g * g, F), F.diff(r.choice(list(ga.coords)))]


def c_dop(r, ga, w):
    xs = list(ga.coords)
    D, _ = c13.mkdop(r, ga, ga.n, xs, False)
    E, _ = c13.mkdop(r, ga, ga.n, xs, False)
    F = _fld(r, ga)
    return [D * F, (D + E) * F, (D - E) | F, (D * E) * F, (-D) ^ F, D == E, D == D + E - E]


def c_makegrad(r, ga, w):
    X = ga.mv(r.choice(['X', 'Y']), r.choice(['vector', 'mv', 'even', 'vector']))
    if r.random() < .4:
        X = ga.mv(sum((c * b for c, b in zip(symbols('p q', real=True), r.sample(list(ga.blades.flat), 2))), S.Zero))
    if VARIANT[0] and not X.is_scalar():
        X = sibling(X, ga, min(VARIANT[0], 2))
    A = _mv(r, ga, ('int',))
    cmp = r.random() < .4
    D = ga.make_grad(X, cmpflg=cmp)
    F = A * X * X.rev() if r.random() < .5 else X * A
    return [D * F if not cmp else F * D]


def c_lt(r, ga, w):
    X = c16.construct(r, w, ga, r.choice(c16.FORMS), True)
    A = _mv(r, ga, ('int', 'sym'))
    out = [X.L.matrix(), X.L(A), X.L.det(), X.L.tr(), X.L.adj().matrix()]
    if r.random() < .5:
        Y = c16.construct(r, w, ga, r.choice(c16.FORMS), False)
        out += [(X.L * Y.L)(A), (X.L + Y.L).matrix(), (X.L - Y.L)(A), X.L.is_singular()]
    return out


def c_ltname(r, ga, w):
    L = ga.lt(r.choice('LM'), mode=r.choice('gsa'))
    return [L.matrix(), L(_mv(r, ga, ('int',))), L.det()]


def c_mlt(r, ga, w):
    T = c17.make(r, w, ga, mvok=False)
    vs = c17.args(r, w, ga, T.rank)
    out = [T.T(*vs)]
    if T.rank < 3 and r.random() < .5:
        U = c17.make(r, w, ga, r.choice(['name', 'func']), T.rank, mvok=False)
        out += [(T.T + U.T)(*vs), (T.T * U.T)(*(vs + vs))]
    if T.rank == 2 and r.random() < .5:
        out.append(T.T.contract(1, 2).fvalue)
    return out


def c_christoffel(r, ga, w):
    from galgebra.ga import Ga
    x, y = [Symbol(s, real=True) for s in ('x', 'y')]
    H = Ga(gen.basis_string(r, 2), g=r.choice([[1, x**2], [1, sin(x)**2], [[1, x], [x, 1 + 2 * x**2]], [y**2, x**2]]), coords=(x, y), norm=r.random() < .3)
    F = _fld(r, H)
    out = [str(H.g), [H.grad * F, F * H.rgrad, F.diff(x), H.pDiff(F, y)]]
    if not H.norm:
        out.append([[[k for k in j] for j in i] for i in H.Christoffel_symbols(mode=r.choice([1, 2]))])
    w.register(H, [[H.g[i, j] for j in range(2)] for i in range(2)])
    return [out[0]] + out[1] + out[2:]


def c_sm(r, ga, w):
    u, v = [Symbol(s, real=True) for s in 'uv']
    maps = {1: [u**2], 2: [u + v, u * v], 3: [u, v, u * v]}[min(ga.n, 3)] + [S.Zero] * max(0, ga.n - 3)
    if ga.n == 1:
        sub = ga.sm(maps, [u])
    elif r.random() < .5:
        sub = ga.sm(maps, [u, v])
    else:
        sub = ga.sm([c.subs(v, 2) for c in maps], [u])
    w.register(sub, [[sub.g[i, j] for j in range(sub.n)] for i in range(sub.n)])
    F = sub.mv(u) * sub.mv()[0]
    return [sub.g, sub.grad * F, F * F]


def c_text(r, ga, w):
    from galgebra.printer import latex
    A = _mv(r, ga)
    return [str(A), latex(A), str(A * A), latex(ga.lt([[r.randint(0, 2) for _ in range(ga.n)] for _ in range(ga.n)])), str(ga.grad)]


def c_rotate(r, ga, w):
    A = _mv(r, ga, ('int',), 'vector')
    B = _nz(r, ga, 'blade')
    return [A.reflect_in_blade(B), A.project_in_blade(B), A.rotate_multivector(B)]


def c_norm(r, ga, w):
    A = _mv(r, ga, ('int', 'rat'))
    return [A.norm2(), A.norm(hint='+'), A.mag2(), A.norm2(hint='-')]


def c_simp(r, ga, w):
    A = _mv(r, ga, ('poly', 'sym'))
    a = Symbol('a', real=True)
    return [A.simplify(), A.expand(), A.trigsimp(), A.subs(a, 3), A.subs({a: 2}), A.func(lambda c: c * 2), A]


def c_eval(r, ga, w):
    from galgebra.printer import GAeval, def_prec
    A, B, C = [_mv(r, ga, ('int',)) for _ in range(3)]
    def_prec({'A': A, 'B': B, 'C': C}, r.choice(['<>|,^,*', '*,^,<>|', '^,*,<>|']))
    return [GAeval(r.choice(['A*B^C', 'A|B*C-A', 'A<B^C', '(A+B)*C|A', 'A^B|C+2*A']))]


def c_names(r, ga, w):
    A, B = ga.mv('A B', r.choice(['vector', 'mv', 'even vector', 'scalar pseudo']))
    f = ga.mv('f', 'vector', f=True)
    return [A, B, A * B, str(A), f, ga.mv('X', 'grade', ga.n)]


def c_dotmode(r, ga, w):
    A, B = _mv(r, ga), _mv(r, ga)
    return [ga.mv(ga.dot(A.obj, B.obj)), ga.mv(ga.mul(A.obj, B.obj)), ga.mv(ga.wedge(A.obj, B.obj)), ga.mv(ga.left_contract(A.obj, B.obj)), ga.mv(ga.scalar_product(A.obj, B.obj))]


COMPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('c_')}
LIGHT = ['product', 'involution', 'query', 'rep', 'grad', 'dop', 'lt', 'mlt', 'recip', 'text', 'simp', 'makegrad', 'names']


def canon(x, ga, w):
    """Value of a result: comparable between processes and algebra instances."""
    if isinstance(x, (bool, str, type(None))):
        return ('s', str(x))
    if isinstance(x, (list, tuple)):
        return ('l', [canon(y, ga, w) for y in x])
    if hasattr(x, 'shape'):
        return ('l', [canon(y, ga, w) for y in x])
    if hasattr(x, 'Ga'):
        try:
            return ('v', w.val(x, x.Ga))
        except num.NonFinite:
            return ('s', 'nonfinite')
    return ('v', ref.clean({0: w.env.num(x)}))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 's':
        return a[1] == b[1]
    if a[0] == 'l':
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    return ref.equal(a[1], b[1])


def do(name, seed, ga, w):
    r = gen.rng_for({'family': name, 'seed': seed})
    w.env = w.env0 if hasattr(w, 'env0') else w.env
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return canon(COMPS[name](r, ga, w), ga, w)
    except (ValueError, TypeError, ZeroDivisionError, NotImplementedError, KeyError, AttributeError, IndexError) as e:
        return ('s', 'raised ' + type(e).__name__)


class Muted:
    """A recorder whose verdicts are not used (helpers of other checks report through it)."""

    def event(self, *a, **k):
        pass

    note = violate = event

    def check(self, ok, *a):
        return ok


def forked(fn):
    """Run fn() in a forked child; returns its pickled result, or None when it fails."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    out = b''
    try:
        while True:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            out += b
    finally:
        os.close(rd)
        try:
            os.waitpid(pid, os.WNOHANG)
            if not out:
                os.kill(pid, 9)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return pickle.loads(out) if out else None


def algebra(rng, like=None):
    if like is not None:
        for _ in range(20):
            b = gen.algebra(rng, KINDS, nmax=3, nmin=like['n'])
            if b['n'] == like['n']:
                return dict(b, basis=like['basis'], coords=gen.NAMES[:b['n']])
    return gen.algebra(rng, KINDS, nmax=3, nmin=1, coords=True)


def world(spec, a):
    w = monitor.World(Muted(), num.Env(spec['seed']))
    ga, g = gen.build(a)
    w.register(ga, g)
    return w, ga


FAILS = {
    'div0': lambda ga, r: _mv(r, ga) / 0,
    'inv0': lambda ga, r: ga.mv(0).inv(),
    'category': lambda ga, r: ga.mv('q', 'nonsense'),
    'dual': lambda ga, r: ga.dual_mode('+J'),
    'coefs': lambda ga, r: ga.mv([1] * (ga.n + 2), 'vector'),
    'alien': lambda ga, r: ga.mv()[0] * type(ga)('e*1|2', g=[1, 1]).mv()[0],
    'alien2': lambda ga, r: ga.mv()[0] | object(),
    'exp': lambda ga, r: (ga.mv()[0] + 1 + ga.E()).exp(hint='?'),
    'lt': lambda ga, r: ga.lt(lambda x: x * x * x + 1),
    'ltmiss': lambda ga, r: ga.lt([1, 2, 'a']),
    'mlt': lambda ga, r: __import__('galgebra.lt', fromlist=['Mlt']).Mlt(lambda a, b: (a | b).nothing, ga),
    'mlt2': lambda ga, r: __import__('galgebra.lt', fromlist=['Mlt']).Mlt('T', ga),
    'frame': lambda ga, r: ga.ReciprocalFrame([ga.mv()[0], ga.mv()[0]]),
    'prec': lambda ga, r: __import__('galgebra.printer', fromlist=['def_prec']).def_prec({}, '*,+'),
    'dop': lambda ga, r: ga.dop([ga.mv()[0]], [1, 2]),
    'dop2': lambda ga, r: ga.grad * ga.rgrad,
    'project': lambda ga, r: ga.mv()[0].project_in_blade(ga.mv(0)),
    'power': lambda ga, r: ga.mv()[0] ** S.Half,
    'sm': lambda ga, r: ga.sm([1] * (ga.n + 1), [Symbol('u')]),
    'symbol': lambda ga, r: ga.lt('L', mode='z'),
    'norm': lambda ga, r: (ga.mv('v', 'vector')).norm(hint='x'),
    'get': lambda ga, r: ga.mv()[0].get_coefs(ga.n + 2),
}


def hist(spec, rec, rng):
    a = algebra(rng)
    others = [algebra(rng, a if rng.random() < .7 else None) for _ in range(rng.randint(1, 2))]
    plan = []
    names = sorted(COMPS)
    if rng.random() < .35:      # the same few kinds of computation again and again
        names = rng.sample(names, 2) + rng.sample(LIGHT, 1)
    for _ in range(rng.randint(5, 8)):
        nm = rng.choice(names) if len(names) < 4 or rng.random() < .7 else rng.choice(LIGHT)
        if a['n'] == 3 and a['kind'] in ('nonsing', 'null', 'symortho') and nm in ('mlt', 'exp', 'norm') and rng.random() < .5:
            nm = 'product'
        plan.append((nm, '%s.%d' % (spec['seed'], rng.randrange(10 ** 6))))

    base = {}
    for nm, s in plan:
        def fresh(nm=nm, s=s):
            w, ga = world(spec, a)
            return do(nm, s, ga, w)
        base[nm, s] = forked(fresh)
    w, ga = world(spec, a)
    neigh = []
    for b in others:
        wb, gb = world(spec, b)
        w.register(gb, wb.metrics[gb.name])
        neigh.append(gb)
    order = list(plan)
    rng.shuffle(order)
    trail = []
    for step, (nm, s) in enumerate(order + rng.sample(plan, min(3, len(plan)))):
        # something else happens first
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < .35:
                f = rng.choice(sorted(FAILS))
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        FAILS[f](ga if rng.random() < .7 else rng.choice(neigh), rng)
                    trail.append('?' + f)
                except Exception as e:     # noqa: BLE001 - any failure is history
                    trail.append('!' + f)
                    rec.event('error-kept', '%s %s' % (f, nm))
            elif r < .7:
                g2 = rng.choice(neigh)
                f = rng.choice(LIGHT)
                do(f, rng.random() if rng.random() < .5 else s, g2, w)
                trail.append('neighbour ' + f)
                rec.event('neighbour', '%s %s' % (f, nm))
            elif r < .8:
                # nearly the same computation
                f, s2 = (nm, s) if rng.random() < .7 else rng.choice(plan)
                VARIANT[0] = rng.randint(1, 4)
                try:
                    do(f, s2, ga, w)
                finally:
                    VARIANT[0] = 0
                trail.append('near ' + f)
                rec.event('near', '%s %s' % (f, nm))
            else:
                # the same kind of computation on other operands, or any other
                f = nm if rng.random() < .6 else rng.choice(LIGHT)
                do(f, rng.random(), ga, w)
                trail.append(f)
        got = do(nm, s, ga, w)
        want = base[nm, s]
        kind = 'hist-' + nm if step < len(order) else 'hist-again'
        if want is None:
            rec.note('baseline-failed')
            continue
        raised = got[0] == 's'
        rec.check(same(got, want), kind, '%s %s %s' % (nm, ga.n, str(want)[:400]), kind,
                  lambda: '%s gives %s after %s, %s alone, in %s' % (nm, str(got)[:300], trail[-12:], str(want)[:300], a))
        if raised:
            rec.note('same-error')
        trail.append(nm)


# ---------------------------------------------------------------- immutability

def text(x):
    from galgebra.printer import latex
    return str(x), latex(x)


def queries(A):
    q = {}
    for nm in ('is_scalar', 'is_vector', 'is_blade', 'is_base', 'is_zero', 'pure_grade', 'is_versor'):
        try:
            q[nm] = getattr(A, nm)()
        except Exception as e:  # noqa: BLE001
            q[nm] = type(e).__name__
    q['coefs'] = [str(c) for c in A.blade_coefs()]
    return q


class Obj:
    """One live object with what was known of it when it was made."""

    def __init__(self, name, x, w, ga):
        from galgebra.mv import Mv, Dop
        self.name, self.x, self.ga, self.w = name, x, ga, w
        self.mv = isinstance(x, Mv)
        if self.mv:
            self.sym, self.rep, self.title = x.obj, x.is_blade_rep, x.title
            self.asked = None
        self.text = self.say()
        self.val = self.value()

    def say(self):
        if isinstance(self.x, (list, tuple, dict)) or hasattr(self.x, 'shape'):
            return repr([str(t) for t in (self.x.items() if isinstance(self.x, dict) else self.x)]), type(self.x).__name__
        try:
            return text(self.x)
        except (TypeError, ValueError, NotImplementedError, AttributeError) as e:
            return str(type(e)), ''

    def value(self):
        from galgebra.mv import Mv, Dop
        from galgebra.lt import Lt, Mlt
        from galgebra.dop import Pdop, Sdop
        x = self.x
        if isinstance(x, Mv):
            return ('v', self.w.val(x, x.Ga))
        if isinstance(x, Lt):
            return canon([x(e) for e in self.ga.mv()], self.ga, self.w)
        if isinstance(x, Dop):
            return ('s', str([(str(c), str(sorted(map(str, p.pdiffs.items())))) for c, p in x.terms]) + str(x.cmpflg))
        if isinstance(x, Mlt):
            vs = self.ga.mv()
            return canon([x(*[vs[(i + j) % len(vs)] for j in range(x.nargs)]) for i in range(len(vs))] + [x.nargs], self.ga, self.w)
        if isinstance(x, Pdop):
            return ('s', str(sorted(map(str, x.pdiffs.items()))) + str(x.order))
        if isinstance(x, Sdop):
            return ('s', str([(str(c), str(sorted(map(str, p.pdiffs.items())))) for c, p in x.terms]))
        return ('s', '')

    def verify(self, rec, op, last=False):
        t, v = self.say(), self.value()
        rec.check(t == self.text, 'immut-text', '%s %s' % (op, self.text[0]), 'immut-text:' + op,
                  lambda: '%s changed the printed form of %s from %s to %s' % (op, self.name, self.text, t))
        rec.check(same(v, self.val), 'immut-value', '%s %s' % (op, self.text[0]), 'immut-value:' + op,
                  lambda: '%s changed the value of %s (%s): %s' % (op, self.name, self.text[0], v))
        self.text, self.val = t, v      # later operations answer for themselves only
        if self.mv:
            from galgebra.mv import Mv
            rec.check(self.x.title == self.title and self.x.Ga is self.ga, 'immut-attr', op + self.text[0], 'immut-attr:' + op,
                      lambda: '%s changed attributes of %s' % (op, self.name))
            if last:
                q = queries(self.x)
                tw = Mv(0, ga=self.ga)
                tw.obj, tw.is_blade_rep, tw.i_grade = self.sym, self.rep, None
                p = queries(tw)
                rec.check(q == p, 'query', self.text[0], 'query', lambda: 'queries of %s answer %s, of a fresh copy %s (%s)' % (self.name, q, p, self.text[0]))
                if self.asked is not None:
                    rec.check(q == self.asked, 'query', 'again ' + self.text[0], 'query', lambda: 'queries of %s answer %s, earlier %s' % (self.name, q, self.asked))


def algebra_state(ga, w):
    out = {'n': ga.n, 'basis': [str(b) for b in ga.basis], 'coords': str(ga.coords), 'g': str(ga.g), 'blades': [str(b) for b in ga.blades.flat],
           'indexes': str(list(ga.indexes.flat)), 'e_sq': str(ga.e_sq), 'e': str(ga.e), 'i': str(ga.i), 'wedge': ga.wedge_print, 'dual': ga.dual_mode_value,
           'dot_mode': ga.dot_mode, 'name': ga.name, 'norm': ga.norm, 'sig': str(ga.sig), 'ortho': ga.is_ortho, 'connect': ga.connect_flg, 'dslot': ga.dslot,
           'mv': [str(v) for v in ga.mv()], 'super': str(ga.basis_super_scripts), 'str': str(ga), 'grad': str(ga.grad), 'rgrad': str(ga.rgrad)}
    return out


def probes(ga, w, seed):
    return [do(nm, seed, ga, w) for nm in ('product', 'grad', 'recip')]


def immut(spec, rec, rng):
    from galgebra.dop import Pdop, Sdop
    from galgebra.lt import Mlt
    from galgebra import mv as mvm
    a = algebra(rng)
    w, ga = world(spec, a)
    n, xs = ga.n, list(ga.coords)
    if n == 0:
        return
    e = ga.mv()
    early = rng.random() < .5
    if early:
        p0 = probes(ga, w, spec['seed'])
    state = algebra_state(ga, w)
    objs = []

    def add(nm, x):
        objs.append(Obj(nm, x, w, ga))
        return objs[-1]
    for i in range(4):
        A = _mv(rng, ga, ('int', 'rat', 'sym', 'poly'))
        if rng.random() < .3:
            A = A.base_rep()
        add('A%d' % i, A)
    add('field', _fld(rng, ga))
    add('vec', _nz(rng, ga, 'vector'))
    add('named', ga.mv('V', 'vector'))
    add('e', e[rng.randrange(n)])
    add('I', ga.I())
    add('D', c13.mkdop(rng, ga, n, xs, False)[0])
    add('E', c13.mkdop(rng, ga, n, xs, True)[0])
    add('grad', ga.grad)
    add('P', Pdop({xs[0]: 1}))
    add('P2', Pdop({}))
    add('S', Sdop([(xs[0] * 2, Pdop(xs[-1])), (S.One, Pdop({}))]))
    for f in rng.sample(c16.FORMS, 2):
        add('L' + f, c16.construct(rng, w, ga, f, False).L)
    for i in range(2):
        T = c17.make(rng, w, ga, mvok=False, rank=rng.choice([1, 2, 2]))
        add('T%d' % i, T.T)
    mvs = [o for o in objs if o.mv]
    dops = [o for o in objs if o.name in ('D', 'E', 'grad')]
    lts = [o for o in objs if o.name[0] == 'L']
    mlts = [o for o in objs if o.name[0] == 'T']
    pds = [o for o in objs if o.name in ('P', 'P2', 'S')]
    for o in mvs:
        if rng.random() < .4:
            o.asked = queries(o.x)
    a_ = Symbol('a', real=True)
    pick = rng.choice

    def bin_(op):
        return lambda A, B: {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B, '+': lambda: A + B, '-': lambda: A - B,
                             '<<': lambda: A << B, '>>': lambda: A >> B, '/': lambda: A / B, '==': lambda: A == B}[op]()

    un = {
        'neg': lambda A: -A, 'rev': lambda A: A.rev(), 'invol': lambda A: A.g_invol(), 'ccon': lambda A: A.ccon(), 'even': lambda A: A.even(), 'odd': lambda A: A.odd(),
        'dual': lambda A: A.dual(), 'undual': lambda A: A.undual(), 'inv': lambda A: A.inv(), 'shirokov': lambda A: A.shirokov_inverse(), 'hitzer': lambda A: A.hitzer_inverse(),
        'exp': lambda A: A.exp(), 'qform': lambda A: A.qform(), 'norm2': lambda A: A.norm2(), 'norm': lambda A: A.norm(), 'mag': lambda A: A.mag2(), 'abs': lambda A: abs(A),
        'scalar': lambda A: A.scalar(), 'grade': lambda A: A.grade(pick(range(n + 1))), 'item': lambda A: A[pick(range(n + 1))], 'components': lambda A: A.components(),
        'get_coefs': lambda A: A.get_coefs(1), 'blade_coefs': lambda A: A.blade_coefs([e[0]]), 'proj': lambda A: A.proj([e[0]]), 'list': lambda A: A.list(),
        'base_rep': lambda A: A.base_rep(), 'blade_rep': lambda A: A.blade_rep(), 'simplify': lambda A: A.simplify(), 'simplify2': lambda A: A.simplify(modes=[expand, simplify]),
        'expand': lambda A: A.expand(), 'trigsimp': lambda A: A.trigsimp(), 'collect': lambda A: A.collect(), 'subs': lambda A: A.subs(a_, 2), 'func': lambda A: A.func(lambda c: c * c),
        'is_zero': lambda A: A.is_zero(), 'is_blade': lambda A: A.is_blade(), 'is_versor': lambda A: A.is_versor(), 'is_base': lambda A: A.is_base(), 'pure_grade': lambda A: A.pure_grade(),
        'hash': lambda A: hash(A), 'fmt': lambda A: str(A.Fmt(pick([1, 2, 3]), 'A')), 'repr': lambda A: repr(A), 'latexrepr': lambda A: A._repr_latex_(),
        'pow': lambda A: A ** 2, 'diff': lambda A: A.diff(xs[0]), 'pdiff': lambda A: A.pdiff(xs[-1]), 'copy': lambda A: ga.mv(A) + 1, 'sum0': lambda A: sum([A, A]),
        'nga': lambda A: mvm.Nga(A), 'mod.rev': lambda A: mvm.rev(A), 'mod.dual': lambda A: mvm.dual(A), 'mod.exp': lambda A: mvm.exp(A), 'mod.norm': lambda A: mvm.norm2(A),
        'grade_decomposition': lambda A: ga.grade_decomposition(A), 'add1': lambda A: 1 + A, 'mula': lambda A: a_ * A, 'div2': lambda A: A / 2, 'rdiv': lambda A: 1 / A,
    }
    jobs = []
    for _ in range(14):
        o = pick(mvs)
        k = pick(sorted(un))
        jobs.append((k, [o], lambda k=k, o=o: un[k](o.x)))
    for _ in range(10):
        A, B = pick(mvs), pick(mvs)
        op = pick(['*', '^', '|', '<', '>', '+', '-', '<<', '>>', '/', '=='])
        jobs.append((op, [A, B], lambda A=A, B=B, op=op: bin_(op)(A.x, B.x)))
    for _ in range(3):
        A, B = pick(mvs), pick(mvs)
        k = pick(['refl', 'proj', 'rot', 'compare', 'sp', 'com'])
        jobs.append((k, [A, B], lambda A=A, B=B, k=k: {'refl': lambda: A.x.reflect_in_blade(B.x), 'proj': lambda: A.x.project_in_blade(B.x), 'rot': lambda: A.x.rotate_multivector(B.x),
                                                       'compare': lambda: mvm.compare(A.x, B.x), 'sp': lambda: A.x.sp(B.x), 'com': lambda: ga.com(A.x, B.x)}[k]()))
    for _ in range(7):
        D, A, D2 = pick(dops), pick(mvs), pick(dops)
        op = pick('*^|<>')
        k = pick(['D.A', 'A.D', 'D+D', 'D-D', '-D', 'D.D', 'D==D', 'D.simplify', 'D.components', 'D.consolidate', 'D*s', 's*D', 'D/s', 'D.scalar', 'D.fmt'])
        jobs.append((k, [D, A, D2], lambda D=D, A=A, D2=D2, op=op, k=k: {
            'D.A': lambda: bin_(op)(D.x, A.x), 'A.D': lambda: bin_(op)(A.x, D.x), 'D+D': lambda: D.x + D2.x, 'D-D': lambda: D.x - D2.x, '-D': lambda: -D.x,
            'D.D': lambda: bin_(op)(D.x, D2.x), 'D==D': lambda: D.x == D2.x, 'D.simplify': lambda: D.x.simplify(), 'D.components': lambda: D.x.components(),
            'D.consolidate': lambda: D.x.consolidate_coefs(), 'D*s': lambda: D.x * xs[0], 's*D': lambda: xs[0] * D.x, 'D/s': lambda: D.x / 2, 'D.scalar': lambda: D.x.is_scalar(),
            'D.fmt': lambda: str(D.x.Fmt(2, 'D'))}[k]()))
    for _ in range(5):
        L, M, A = pick(lts), pick(lts), pick(mvs)
        k = pick(['L(A)', 'L+M', 'L-M', 'L*M', '2*L', 'det', 'tr', 'adj', 'inv', 'sing', 'matrix', 'L.fmt', 'mltL'])
        jobs.append((k, [L, M, A], lambda L=L, M=M, A=A, k=k: {
            'L(A)': lambda: L.x(A.x), 'L+M': lambda: L.x + M.x, 'L-M': lambda: L.x - M.x, 'L*M': lambda: L.x * M.x, '2*L': lambda: (2 * L.x)(A.x), 'det': lambda: L.x.det(), 'tr': lambda: L.x.tr(),
            'adj': lambda: L.x.adj(), 'inv': lambda: L.x.inv(), 'sing': lambda: L.x.is_singular(), 'matrix': lambda: L.x.matrix(), 'L.fmt': lambda: str(L.x.Fmt(2, 'L')),
            'mltL': lambda: Mlt(L.x, ga)}[k]()))
    for _ in range(5):
        T, U = pick(mlts), pick(mlts)
        vs = [pick([o for o in mvs if o.name in ('vec', 'named', 'e')]) for _ in range(T.x.nargs)]
        k = pick(['T()', 'T+U', 'T-U', 'T*U', 'contract', 'pdiff', 'cderiv', 'T*s', 'comps', 'T.expand', 'T.fmt', 'call-new'])
        jobs.append((k, [T, U] + vs, lambda T=T, U=U, vs=vs, k=k: {
            'T()': lambda: T.x(*[v.x for v in vs]), 'T+U': lambda: T.x + U.x, 'T-U': lambda: T.x - U.x, 'T*U': lambda: T.x * U.x, 'contract': lambda: T.x.contract(1, 2),
            'pdiff': lambda: T.x.pdiff(1), 'cderiv': lambda: T.x.cderiv(), 'T*s': lambda: T.x * 3, 'comps': lambda: T.x.comps(), 'T.expand': lambda: T.x.expand(), 'T.fmt': lambda: str(T.x.Fmt(1)),
            'call-new': lambda: Mlt('Z', ga, nargs=2)(e[0], e[-1])}[k]()))
    for _ in range(4):
        p, q, A = pick(pds), pick(pds), pick(mvs)
        k = pick(['p*p', 'p(A)', 'p+p', 'p-p', 'p==p', '2*p', 'x*p', '-p', 'p*D', 'p(x)', 'dop'])
        D = dops[0]
        jobs.append((k, [p, q, A, D], lambda p=p, q=q, A=A, D=D, k=k: {
            'p*p': lambda: p.x * q.x, 'p(A)': lambda: p.x * A.x, 'p+p': lambda: p.x + q.x, 'p-p': lambda: p.x - q.x, 'p==p': lambda: p.x == q.x, '2*p': lambda: 2 * p.x, 'x*p': lambda: xs[0] * p.x,
            '-p': lambda: -p.x, 'p*D': lambda: p.x * D.x, 'p(x)': lambda: p.x * (xs[0] ** 3), 'dop': lambda: ga.dop([e[0]], [p.x]) * A.x}[k]()))

    # argument containers
    def args_job():
        k = pick(['g-matrix', 'g-list', 'coefs', 'lt-dict', 'dop-terms', 'subs', 'frame', 'pd-dict', 'sm', 'bases', 'X'])
        from galgebra.ga import Ga
        x, y = [Symbol(s, real=True) for s in 'xy']
        if k == 'g-matrix':
            c = [Matrix([[1, S.Half], [S.Half, 3]]), [x, y]]
            f = lambda: Ga('q*1|2', g=c[0], coords=c[1], norm=pick([False, True]) and False)
        elif k == 'g-list':
            c = [[[1, x], [x, 2]], [x, y]]
            f = lambda: Ga('q*1|2', g=c[0], coords=c[1]).grad
        elif k == 'X':
            c = [[x * cos(y), x * sin(y)], [x, y]]
            f = lambda: Ga('q*r|t', X=c[0], coords=c[1], norm=True).grad
        elif k == 'coefs':
            c = [[a_ + i for i in range(n)], [a_ * i for i in range(1 << (n - 1))]]
            f = lambda: (ga.mv(c[0], 'vector'), ga.mv(tuple(c[0]), 'grade', 1))
        elif k == 'lt-dict':
            c = [{ga.basis[0]: e[-1], ga.basis[-1]: 2 * e[0]}, [[i + j for j in range(n)] for i in range(n)], Matrix(n, n, lambda i, j: i - j)]
            f = lambda: [ga.lt(z) for z in c]
        elif k == 'dop-terms':
            c = [[e[0], e[-1]], [Pdop(xs[0]), Pdop(xs[-1])], [(e[0], Pdop(xs[0])), (-e[0], Pdop(xs[0]))]]
            f = lambda: (ga.dop(c[0], c[1]), ga.dop(c[2]) * objs[0].x)
        elif k == 'subs':
            c = [{a_: 3, Symbol('b', real=True): a_}, [(a_, 2)]]
            f = lambda: (objs[0].x.subs(c[0]), objs[1].x.subs(c[1]))
        elif k == 'frame':
            c = [[e[i] for i in range(n)], [e[0] + e[-1]]]
            f = lambda: (ga.ReciprocalFrame(c[0]), ga.ReciprocalFrame(c[1], mode='append'))
        elif k == 'pd-dict':
            c = [{xs[0]: 2, xs[-1]: 1}]
            f = lambda: (Pdop(c[0]) * Pdop(xs[0]), Pdop(c[0]) * objs[4].x, Sdop([(xs[0], Pdop(c[0]))]) * Sdop(xs[0]))
        elif k == 'sm':
            u = Symbol('u', real=True)
            c = [[u ** (i + 1) for i in range(n)], [u]]
            f = lambda: ga.sm(c[0], c[1])
        else:
            c = [[e[0], e[-1]]]
            f = lambda: (objs[0].x.blade_coefs(c[0]), objs[0].x.proj(c[0]))
        before = [[str(t) for t in (z.items() if isinstance(z, dict) else z)] for z in c]
        try:
            f()
        except (ValueError, ZeroDivisionError, NotImplementedError):
            rec.note('args-failed')
        after = [[str(t) for t in (z.items() if isinstance(z, dict) else z)] for z in c]
        rec.check(before == after, 'args', '%s %s' % (k, before), 'args:' + k, lambda: '%s changed its arguments %s to %s' % (k, before, after))

    # augmented assignment gives a new object
    def alias_job():
        o = pick(mvs)
        B = o.x
        k = pick(['+=', '-=', '*=', '^=', '|=', '/=', 'D+='])
        A = o.x
        C = pick(mvs).x
        if k == '+=':
            A += C
        elif k == '-=':
            A -= C
        elif k == '*=':
            A *= C
        elif k == '^=':
            A ^= C
        elif k == '|=':
            A |= C
        elif k == '/=':
            A /= 2
        else:
            D = dops[0].x
            D += dops[0].x
            D *= xs[0]
            dops[0].verify(rec, 'alias' + k)
        rec.event('alias', '%s %s' % (k, o.text[0]))
        o.verify(rec, 'alias' + k)
        # a copy is independent of what it was copied from
        Z = ga.mv(B)
        if n and Z.is_blade_rep:
            Z.set_coef(1, 0, Symbol('zz'))
            o.verify(rec, 'copy')

    for _ in range(3):
        jobs.append(('args', [], args_job))
    for _ in range(3):
        jobs.append(('alias', [], alias_job))
    rng.shuffle(jobs)
    for k, used, f in jobs:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f()
        except (ValueError, TypeError, ZeroDivisionError, NotImplementedError, KeyError, AttributeError, IndexError) as ex:
            rec.note('operation-raised')
        rec.event('immut-op-' + k)
        for o in used:
            o.verify(rec, k)
    for o in objs:
        o.verify(rec, 'history', last=True)
    st = algebra_state(ga, w)
    rec.check(st == state, 'algebra', str(state), 'algebra', lambda: 'the algebra changed: %s' % [(k, state[k], st[k]) for k in st if st[k] != state[k]])
    w2, g2 = world(spec, a)
    p1 = probes(ga, w, spec['seed'])
    p2 = probes(g2, w2, spec['seed'])
    rec.check(all(same(x, y) for x, y in zip(p1, p2)), 'probe', str(p1)[:300], 'probe', lambda: 'probe computations give %s, in a fresh algebra %s' % (str(p1)[:300], str(p2)[:300]))
    if early:
        rec.check(all(same(x, y) for x, y in zip(p0, p1)), 'probe', 'early' + str(p1)[:300], 'probe', lambda: 'probe computations give %s, before %s' % (str(p1)[:300], str(p0)[:300]))


def answers(spec, rec, rng):
    """A result answers for itself, whatever its operands had been asked before."""
    a = algebra(rng)
    w, ga = world(spec, a)
    n = ga.n
    if n == 0:
        return
    k = Symbol('k', real=True)
    zero = rng.choice([(k + 1) ** 2 - k ** 2 - 2 * k - 1, sin(k) ** 2 + cos(k) ** 2 - 1, k, k, k ** 2 - 1])
    bl = ga.mv_blades.flat
    vec = [gen.mvspec(rng, n, ('int',), style='vector') for _ in range(4)]

    def make():
        vs = [gen.mk(ga, v) for v in vec]
        return {'blade': lambda: vs[0] ^ vs[1], 'blade+k': lambda: (vs[0] ^ vs[1]) + k * (vs[2] ^ vs[3]), 'prod': lambda: vs[0] * vs[1] * (k + 1), 'mix': lambda: vs[0] + zero * (vs[1] ^ vs[2]),
                'scal': lambda: 2 + zero * vs[1], 'two': lambda: bl[i1] + zero * bl[i2], 'blades': lambda: bl[i1] + bl[i2], 'gen': lambda: gen.mk(ga, sp), 'base': lambda: bl[i1] * (1 + k - k * zero)}[form]()
    for _ in range(3):
        form = rng.choice(['blade', 'blade+k', 'blade+k', 'prod', 'mix', 'mix', 'scal', 'two', 'blades', 'gen', 'base'])
        i1, i2 = rng.randrange(len(bl)), rng.randrange(len(bl))
        sp = gen.mvspec(rng, n, ('int', 'rat', 'sym'))
        rep = rng.random() < .3
        A, B = [X.base_rep() if rep else X for X in (make(), make())]
        asked = rng.sample(['is_scalar', 'is_vector', 'is_blade', 'is_base', 'is_zero', 'pure_grade', 'is_versor', 'characterise_Mv', '__hash__'], rng.randint(1, 9))
        for nm in asked:
            getattr(A, nm)()
        r, m = rng.randrange(n + 1), rng.choice([0, 1, -1, 2])
        c = S(rng.choice([0, 1, 3]))
        ops = {'subs': lambda X: X.subs({k: m}), 'subs2': lambda X: X.subs(k, m), 'simplify': lambda X: X.simplify(), 'trigsimp': lambda X: X.trigsimp(), 'expand': lambda X: X.expand(),
               'func': lambda X: X.func(lambda t: c if t.has(k) else t), 'diff': lambda X: X.diff(k), 'grade': lambda X: X.grade(r), 'even': lambda X: X.even(), 'odd': lambda X: X.odd(),
               'proj': lambda X: X.proj([bl[i1]]), 'neg': lambda X: -X, 'scale': lambda X: c * X, 'plus': lambda X: X + bl[i2], 'rep': lambda X: X.base_rep().blade_rep(), 'base': lambda X: X.base_rep(),
               'copy': lambda X: ga.mv(X), 'rev': lambda X: X.rev(), 'invol': lambda X: X.g_invol(), 'collect': lambda X: X.collect(), 'mul': lambda X: X * bl[i2], 'wedge': lambda X: X ^ bl[i2],
               'dot': lambda X: X | bl[i2], 'self': lambda X: X, 'set': lambda X: (X.set_coef(r, 0, m), X)[1], 'dual': lambda X: X.dual()}
        todo = ['subs', 'simplify', 'func', 'set'] + rng.sample(sorted(ops), 5)
        for o in dict.fromkeys(todo):
            if o == 'set':
                continue
            try:
                X, Y = ops[o](A), ops[o](B)
            except (ValueError, ZeroDivisionError, TypeError):
                rec.note('answers-refused')
                continue
            q, p = queries(X), queries(Y)
            rec.check(q == p and hash(X) == hash(Y), 'answers', '%s %s %s' % (o, asked, B.obj), 'answers:' + o,
                      lambda: 'after %s were asked of %s, %s of it answers %s; without those questions %s' % (asked, B.obj, o, q, p))
            if o in ('subs', 'func') and rng.random() < .5:
                A, B = X, Y
        if rng.random() < .3:
            ops['set'](A), ops['set'](B)
            q, p = queries(A), queries(B)
            rec.check(q == p, 'answers', 'set %s %s' % (asked, B.obj), 'answers:set', lambda: 'after %s were asked, set_coef leaves answers %s; without those questions %s' % (asked, q, p))


def run(spec, rec):
    rng = gen.rng_for(spec)
    {'hist': hist, 'immut': immut, 'answers': answers}[spec['family']](spec, rec, rng)
