"""C09 duality and pseudoscalars."""
from sympy import Matrix, simplify

from .. import gen, monitor, num, ref, workload

PROP = 'C09'
RULE = ('E(), I(), I*I, dual, undual and their compositions in all eight modes on random multivectors of random nonsingular algebras '
        '(numeric signs, symbolic metrics with either Isq), rejected mode names and unchanged mode afterwards, cross in three dimensions '
        'and its rejections; compared with the reference pseudoscalar products. distinct_nontrivial counts distinct (operation, mode, dimension, value).')
ASSUMPTIONS = ['for a symbolic pseudoscalar square the sign is the one given by Isq; square roots are compared up to principal branch']
REQUIRED = ['E', 'I', 'Isq', 'dual', 'undual', 'dual-undual', 'undual-dual', 'fn-dual', 'fn-undual', 'mode-reject', 'cross', 'cross-reject']
KINDS = ('euclid', 'ortho', 'ortho', 'nonsing', 'null', 'symortho', 'symnon', 'default')
MODES = ['+I', '-I', 'I+', 'I-', '+Iinv', '-Iinv', 'Iinv+', 'Iinv-']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('dual', 300), ('cross', 60)) for i in range(m * k)]


def pseudo(w, ga, a, C):
    """Reference normalised pseudoscalar and its square, or None."""
    E = C.ps()
    s = ref.scalar(C.gp(E, E))
    if s == 0:
        return None
    mp = ref.mpmath
    if 'gsym' not in a and not simplify(Matrix(w.metrics[ga.name]).det()).free_symbols:
        sq = 1 if ref.to_mp(s) > 0 else -1
    else:
        sq = 1 if a.get('Isq') == '+' else -1
    root = mp.sqrt(ref.to_mp(s) * sq)
    return ref.smul(1 / root, E), sq


def run(spec, rec):
    from galgebra.ga import Ga
    from galgebra import mv as M
    rng = gen.rng_for(spec)
    fam = spec['family']
    if fam == 'cross':
        a = gen.algebra(rng, KINDS, nmax=3, nmin=3)
    else:
        a = gen.algebra(rng, KINDS, nmax=5, nmin=1, big=.04, gsym=.08)
        if a['n'] > 5 or (a['n'] == 4 and a['kind'] in ('symnon', 'default')):
            a = gen.algebra(rng, ('euclid', 'ortho'), nmax=6, nmin=6)
    if a['kind'] in ('symortho', 'symnon', 'default') or 'gsym' in a:
        a['Isq'] = rng.choice(['+', '-'])
    n = a['n']
    w, ga = workload.algebra_world(spec, rec, [], a)
    C = w.cl(ga)
    p = pseudo(w, ga, a, C)
    if p is None:
        rec.note('singular')
        return
    I, sq = p
    Iinv = ref.smul(sq, I)
    old = Ga.dual_mode_value
    try:
        w.judge('E', ga, [a['g']], ga.E(), C.ps())
        w.judge('I', ga, [a['g']], ga.I(), I)
        w.judge('Isq', ga, [a['g']], ga.I() * ga.I(), {0: sq})
        w.judge('Iinv', ga, [a['g']], ga.i_inv, Iinv)
        if fam == 'cross':
            for _ in range(3):
                u = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector'))
                v = gen.mk(ga, gen.mvspec(rng, n, ('int', 'sym'), style='vector'))
                uv, vv = w.val(u, ga), w.val(v, ga)
                if not uv or not vv:
                    continue
                if rng.random() < .3:
                    Ga.dual_mode(rng.choice(MODES))
                w.judge('cross', ga, [uv, vv], M.cross(u, v), ref.neg(C.gp(I, ref.wedge(uv, vv))))
            bad = gen.mk(ga, gen.mvspec(rng, n, ('int',), style=rng.choice(['even', 'dense', 'scalar+'])))
            if any(ref.popcount(k) != 1 for k in w.val(bad, ga)):
                for args in ((u, bad), (bad, u)):
                    try:
                        M.cross(*args)
                        ok = False
                    except ValueError:
                        ok = True
                    rec.check(ok, 'cross-reject', str(bad.obj), 'cross-accepted', lambda: 'cross accepted %s' % (bad.obj,))
            o2 = Ga('p q', g=[1, 1])
            f4 = Ga('p*1|2|3|4', g=[1, 1, 1, 1])
            o3 = Ga('p*1|2|3', g=[1, 1, 1])
            x, y = o2.mv()
            x4, y4 = f4.mv()[:2]
            for args in ((x, y), (x4, y4), (u, o3.mv()[0])):
                try:
                    M.cross(*args)
                    ok = False
                except ValueError:
                    ok = True
                rec.check(ok, 'cross-reject', args[0].Ga.n, 'cross-accepted-dim', 'cross accepted vectors of dimension %d' % args[0].Ga.n)
            return
        for _ in range(2):
            A = gen.mk(ga, gen.mvspec(rng, n, ('int', 'rat', 'sym')))
            if rng.random() < .2:
                A = A.base_rep()
            v = w.val(A, ga)
            for mode in rng.sample(MODES, 5):
                Ga.dual_mode(mode)
                J = Iinv if 'Iinv' in mode else I
                s = -1 if '-' in mode else 1
                want = ref.smul(s, C.gp(J, v) if mode[0] in '+-' else C.gp(v, J))
                D = A.dual()
                w.judge('dual', ga, [mode, v], D, want, extra=mode)
                w.judge('fn-dual', ga, [mode, v], M.dual(A), want, extra=mode)
                U = A.undual()
                # undual is the inverse map: solve  s*J*U = v  (or U*J*s = v)
                Jinv = ref.smul(sq, J)
                wantu = ref.smul(s, C.gp(Jinv, v) if mode[0] in '+-' else C.gp(v, Jinv))
                w.judge('undual', ga, [mode, v], U, wantu, extra=mode)
                w.judge('fn-undual', ga, [mode, v], M.undual(A), wantu, extra=mode)
                w.judge('dual-undual', ga, [mode, v], D.undual(), v, extra=mode)
                w.judge('undual-dual', ga, [mode, v], U.dual(), v, extra=mode)
                if rng.random() < .3:
                    badm = rng.choice(['I', 'xyz', '', 'Iinv', '+i', 'I++', '++I'])
                    try:
                        Ga.dual_mode(badm)
                        ok = False
                    except ValueError:
                        ok = Ga.dual_mode_value == mode
                    rec.check(ok, 'mode-reject', badm, 'mode-reject', 'dual_mode(%r): mode now %r' % (badm, Ga.dual_mode_value))
    finally:
        Ga.dual_mode_value = old
