"""C12 geometric derivative in any coordinates."""
from sympy import Matrix, S, Symbol, diff

from .. import gen, geo, monitor, num, ref

PROP = 'C12'
RULE = ('grad and rgrad in 27 coordinate systems (flat and curved, orthogonal and not, normalised and not, built from a metric or an embedding) '
        'applied to random fields by every product on both sides, twice in sequence, to scalar functions and to base-representation fields; the result is compared at a '
        'random point with the sum over reciprocal vectors of independently computed covariant derivatives, and in flat systems also with the '
        'Cartesian derivative of the same field transported by the frame. distinct_nontrivial counts distinct (op, side, system, field).')
ASSUMPTIONS = ['coordinates are evaluated at points inside each chart']
REQUIRED = ['grad.*', 'rgrad.*', 'grad2', 'grad-scalar', 'cartesian', 'recip']
SYS = geo.systems_cached()
CASE_TIMEOUT = {'quick': 40, 'thorough': 240}
OPS = '*^|<>'


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = []
    for i in range(k):
        for s in range(len(SYS)):
            if tier == 'quick' and SYS[s]['big'] and i:
                continue
            for norm in ((0, 1) if SYS[s]['ortho'] else (0,)):
                via = 'X' if SYS[s]['X'] and '-1' not in SYS[s]['flat'] and i % 3 == 1 else 'g'
                out.append({'family': 'grad', 'sys': s, 'norm': norm, 'via': via, 'seed': '%d.%d' % (seed, i)})
    for i in range(40 if tier == 'quick' else 600):
        out.append({'family': 'grad', 'sys': -1, 'norm': 0, 'via': 'g', 'tmo': 20, 'seed': '%d.r%d' % (seed, i)})
    return out


def app(op, A, B):
    return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B}[op]()


def sysfield(rng, n, style=None):
    xs = set(geo.XYZ[:n]) | {Symbol('a', real=True)}
    while True:
        fs = [[m, c] for m, c in geo.fieldspec(rng, n, style) if not geo.P(c).free_symbols - xs]
        if fs:
            return fs


def run(spec, rec):
    rng = gen.rng_for({'family': spec['family'], 'seed': '%s.%s.%s.%s' % (spec['seed'], spec['sys'], spec['norm'], spec['via'])})
    s = geo.system(spec['sys'], spec['seed'])
    n = s['n']
    env = geo.env_for(spec['seed'])
    G = geo.geometry(s, env, bool(spec['norm']))
    ga = geo.build(s, rng, bool(spec['norm']), spec['via'], gsym=.12)
    w = monitor.World(rec, env)
    w.register(ga, G.g)
    tag = '%s norm=%s via=%s' % (s['name'], spec['norm'], spec['via'])
    grad, rgrad = ga.grads()

    # the coefficients of the operator are the reciprocal vectors
    for D in (grad, rgrad):
        got = {}
        for coef, pd in D.terms:
            (v, k), = pd.pdiffs.items()
            got[v] = (coef, k)
        for i, v in enumerate(geo.XYZ[:n]):
            ok = v in got and got[v][1] == 1
            rec.check(ok, 'recip', tag + str(v), 'recip-form', 'gradient of %s lacks d/d%s' % (tag, v))
            if ok:
                w.judge('recip', ga, [i, tag], got[v][0], G.recip[i], extra=tag)

    for rep in range(2):
        fs = sysfield(rng, n)
        F = geo.field(fs)
        A = geo.mvfield(ga, F)
        if rng.random() < .2:
            A = A.base_rep()
        for op in rng.sample(OPS, 5 if not s['big'] else 2):
            w.judge('grad' + op, ga, [tag, str(F)], app(op, grad, A), G.grad(op, F), extra='%s %s %s' % (tag, op, F))
            w.judge('rgrad' + op, ga, [tag, str(F)], app(op, A, rgrad), G.grad(op, F, left=False), extra='%s %s %s' % (tag, op, F))
        # scalar function given as a plain expression
        f = geo.P(rng.choice(['x**2', 'sin(x)', 'x*exp(x)', 'a*x', 'x**3-x']))
        want = G.grad('*', {0: f})
        w.judge('grad-scalar', ga, [tag, str(f)], grad * f, want, extra=tag)
        w.judge('grad-scalar', ga, [tag, str(f), 'mv'], grad * ga.mv(f), want, extra=tag)
        w.judge('grad-scalar', ga, [tag, str(f), 'r'], f * rgrad, want, extra=tag)

    # second derivatives: D_i(e^j op D_j F) assembled from covariant derivatives
    if not s['big'] and not (spec['norm'] and n == 3 and G.curved):
        F = geo.field(sysfield(rng, n, 'sparse'))
        A = geo.mvfield(ga, F)
        for op1, op2 in [(rng.choice(OPS), rng.choice(OPS)) for _ in range(2)]:
            C = G.cl
            want = {}
            for j in range(n):
                dF = G.D(j, F)
                ej = G.recip_field(j)
                for i in range(n):
                    inner = ref.add(C.product(op1, G.num(G.D(i, ej)), G.num(dF)), C.product(op1, G.num(ej), G.num(G.D(i, dF))))
                    want = ref.add(want, C.product(op2, G.recip[i], inner))
            got = app(op2, grad, app(op1, grad, A))
            w.judge('grad2', ga, [tag, op1, op2, str(F)], got, want, extra='%s grad %s (grad %s F) F=%s' % (tag, op2, op1, F))

    # flat systems: transport to the Cartesian frame and differentiate there
    if s['X']:
        X = [geo.P(c) for c in s['X']]
        coords = geo.XYZ[:n]
        flat = [int(geo.P(c)) for c in s['flat']]
        finv = [ref.Fraction(1, f) for f in flat]
        Cf = ref.Clifford([[flat[i] if i == j else 0 for j in range(n)] for i in range(n)])
        J = [[diff(X[a], coords[i]) for a in range(n)] for i in range(n)]            # e_i = J[i][a] E_a
        Jinv = ref.matinv([[env.num(J[i][a]) for i in range(n)] for a in range(n)])    # d u_i / d X_a
        cols_sym = [[G.s[i] * J[i][a] for a in range(n)] for i in range(n)]
        cols = [[env.num(c) for c in col] for col in cols_sym]
        F = geo.field(sysfield(rng, n, rng.choice(['vector', 'sparse', 'blade'])))
        # symbolic outermorphism into the Cartesian frame
        Fc = {}
        for m, c in F.items():
            B = {0: c}
            for j in ref.bits(m):
                N = {}
                for b, v in B.items():
                    for a in range(n):
                        sg = ref.wedge_sign(b, 1 << a)
                        if sg and cols_sym[j][a] != 0:
                            N[b | 1 << a] = N.get(b | 1 << a, S.Zero) + sg * v * cols_sym[j][a]
                B = N
            for b, v in B.items():
                Fc[b] = Fc.get(b, S.Zero) + v
        op = rng.choice(OPS)
        for left in (True, False):
            want = {}
            for a in range(n):
                dF = {}
                for i in range(n):
                    di = ref.clean({b: env.num(diff(v, coords[i])) for b, v in Fc.items()})
                    dF = ref.add(dF, ref.smul(Jinv[i][a], di))
                Ea = {1 << a: finv[a]}
                want = ref.add(want, Cf.product(op, Ea, dF) if left else Cf.product(op, dF, Ea))
            A = geo.mvfield(ga, F)
            got = app(op, grad, A) if left else app(op, A, rgrad)
            gotc = Cf.outermorphism(cols, w.val(got, ga))
            w.judge('cartesian', ga, [tag, op, left, str(F)], gotc, want, extra='%s %s left=%s F=%s' % (tag, op, left, F))
