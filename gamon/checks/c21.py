"""C21 GAeval applies the declared operator precedence."""
import contextlib
import io

from sympy import Symbol

from .. import gen, monitor, num, ref

PROP = 'C21'
RULE = ('Random expression trees over names of multivectors, numbers and symbols with the five products, + and - (unary and binary), parentheses and spacing, rendered for each of the six '
        'orders of the three operator levels; GAeval of the text is compared with the value the reference Clifford algebra gives the tree. distinct_nontrivial counts distinct (order, text).')
ASSUMPTIONS = ['two plain numbers are only combined with *, + and -, whose meaning Python fixes']
CASE_TIMEOUT = {'quick': 15, 'thorough': 120}
REQUIRED = ['eval', 'eval-default', 'eval-paren', 'eval-number', 'eval-minus', 'eval-chain', 'pstr', 'reject', 'reject-keeps', 'env-kept', 'same-order', 'same-names']
LEVELS = ['<>|', '^', '*']
ORDERS = [['<>|', '^', '*'], ['<>|', '*', '^'], ['^', '<>|', '*'], ['^', '*', '<>|'], ['*', '<>|', '^'], ['*', '^', '<>|']]
NAMES = ['A', 'B', 'C', 'Ab', 'B_1', 'e1x', 'X2', 'AA', 'u', 'alpha']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 15
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('eval', 200), ('hist', 60), ('same', 60)) for i in range(m * k)]


class Gen:
    """Text, value and whether it is a plain number, built level by level."""

    def __init__(self, rng, order, vals, C, plain):
        self.rng, self.order, self.vals, self.C, self.plain = rng, order, vals, C, plain
        self.seen = set()

    def sp(self):
        return self.rng.choice(['', '', '', ' ', ' ', '  '])

    def prim(self, d):
        rng = self.rng
        r = rng.random()
        if d > 0 and r < .3:
            s, v, p = self.sum(d - 1)
            self.seen.add('eval-paren')
            return '(' + self.sp() + s + self.sp() + ')', v, p
        if d > 0 and r < .34:
            s, v, p = self.prim(d - 1)
            return '(' + s + ')', v, p
        if r < .45:
            k = rng.randint(0, 4)
            self.seen.add('eval-number')
            return str(k), ref.clean({0: ref.Fraction(k)}), True
        x = rng.choice(sorted(self.vals))
        return x, self.vals[x], x in self.plain

    def level(self, lv, d):
        """lv: levels still to bind, tightest first, so the loosest is last."""
        rng = self.rng
        if not lv:
            return self.prim(d)
        s, v, p = self.level(lv[:-1], d)
        n = rng.choice([0, 0, 0, 1, 1, 2, 3]) if d > 0 else rng.choice([0, 0, 1])
        if n > 1:
            self.seen.add('eval-chain')
        for _ in range(n):
            op = rng.choice(lv[-1])
            t, u, q = self.level(lv[:-1], d)
            if p and q and op != '*':
                continue
            s = s + self.sp() + op + self.sp() + t
            v = self.C.product(op, v, u)
            p = p and q
        return s, v, p

    def sum(self, d):
        rng = self.rng
        s, v, p = self.level(self.order, d)
        if rng.random() < .2:
            # a sign binds to the first operand of the chain; the value is the same by bilinearity
            s, v = '-' + self.sp() + s, ref.neg(v)
            self.seen.add('eval-minus')
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            t, u, q = self.level(self.order, d)
            op = rng.choice('+-')
            if rng.random() < .08:
                t, u = '-' + t, ref.neg(u)
                self.seen.add('eval-minus')
            s = s + self.sp() + op + self.sp() + t
            v = ref.add(v, u) if op == '+' else ref.sub(v, u)
            p = p and q
        return s, v, p


def flat(rng, names, d):
    """A chain of names (and bracketed chains) joined by any operators: tokens that every order can bind."""
    out = []
    for i in range(rng.randint(2, 5)):
        if i:
            out.append(rng.choice('<>|^*^*+-'))
        out.append(flat(rng, names, d - 1) if d > 0 and rng.random() < .2 else rng.choice(names))
    return out


def show(rng, t):
    return ''.join(x if not isinstance(x, list) else '(' + show(rng, x) + ')' for x in t)


def bind(C, t, order, vals):
    v = [bind(C, x, order, vals) if isinstance(x, list) else vals[x] for x in t[::2]]
    o = t[1::2]
    for lv in order + ['+-']:
        w, p = [v[0]], []
        for q, x in zip(o, v[1:]):
            if q in lv:
                w[-1] = C.product(q, w[-1], x) if q not in '+-' else ref.add(w[-1], x) if q == '+' else ref.sub(w[-1], x)
            else:
                w.append(x)
                p.append(q)
        v, o = w, p
    return v[0]


def same(rng, w, ga, C, rec):
    """One text, evaluated again under other orders and with the names bound to other values."""
    from galgebra.printer import GAeval, def_prec
    names = rng.sample(NAMES, rng.randint(2, 4))

    def binding():
        objs = {nm: gen.mk(ga, gen.mvspec(rng, ga.n, ('int', 'int', 'sym'), rng.choice(['dense', 'sparse', 'vector', 'grade']))) for nm in names}
        return objs, {nm: w.val(v, ga) for nm, v in objs.items()}
    binds = [binding(), binding()]
    texts = [flat(rng, names, 1) for _ in range(3)]
    texts = [(show(rng, t), t) for t in texts]
    last = None
    for i in range(7):
        how = rng.choice(['order', 'names', 'both'])
        if last is None or how == 'both':
            last = [rng.randrange(2), rng.choice(ORDERS)]
        elif how == 'order':
            last = [last[0], rng.choice(ORDERS)]
        else:
            last = [1 - last[0], last[1]]
        objs, vals = binds[last[0]]
        def_prec(dict(objs), ','.join(last[1]))
        for s, t in texts:
            w.judge('same-' + ('names' if how == 'names' else 'order'), ga, [last, s], GAeval(s), bind(C, t, last[1], vals),
                    extra='%r with order %s, evaluated before under another order or binding' % (s, last[1]))


def run(spec, rec):
    from galgebra.printer import GAeval, def_prec
    rng = gen.rng_for(spec)
    a = gen.algebra(rng, ('euclid', 'ortho', 'nonsing', 'degen', 'null'), nmax=3, nmin=2)
    ga, g = gen.build(a)
    w = monitor.World(rec, num.Env(spec['seed']))
    w.register(ga, g)
    C = w.cl(ga)
    if spec['family'] == 'same':
        return same(rng, w, ga, C, rec)
    objs, vals, plain = {}, {}, set()
    for nm in rng.sample(NAMES, rng.randint(3, 5)):
        if rng.random() < .12:
            objs[nm] = Symbol('s', real=True)
            plain.add(nm)
        else:
            objs[nm] = gen.mk(ga, gen.mvspec(rng, ga.n, ('int', 'int', 'sym'), rng.choice(['dense', 'sparse', 'vector', 'grade'])))
        vals[nm] = w.val(objs[nm], ga)
    keep = {k: str(v) for k, v in objs.items()}
    current = None
    for i in range(5):
        if current is None or spec['family'] == 'hist' and rng.random() < .5 or spec['family'] == 'eval':
            order = rng.choice(ORDERS)
            env = dict(objs)
            if order == LEVELS and rng.random() < .5:
                def_prec(env)
                dflt = True
            else:
                def_prec(env, ','.join(order))
                dflt = False
            current = order
        if rng.random() < .15:
            bad = rng.choice(['<>|,^,*,%', '<>|,^,/', '<>,^,*', '*^,<>|', '&', '<>|;^;*', '<>| ,^,*', '+,*', '<>|,^,*,', ''])
            try:
                def_prec(dict(objs, A=0), bad)
                rec.check(False, 'reject', bad, 'reject', 'def_prec accepts %r' % bad)
                def_prec(env, ','.join(current))
            except ValueError:
                rec.event('reject', bad)
                rec.event('reject-keeps', '%s %s' % (bad, current))       # judged by the evaluation below
        G = Gen(rng, current, vals, C, plain)
        for _ in range(20):
            G.seen = set()
            s, v, p = G.sum(rng.choice([1, 2, 2, 3]))
            if 3 <= len(s) <= 70:
                break
        else:
            continue
        pad = rng.choice(['', '', ' '])
        text = pad + s + pad
        buf = io.StringIO()
        pstr = rng.random() < .2
        with contextlib.redirect_stdout(buf):
            r = GAeval(text, pstr) if pstr else GAeval(text)
        if pstr:
            ls = buf.getvalue().split('\n')
            rec.check(len(ls) == 3 and ls[0] == text and ls[2] == '', 'pstr', text, 'pstr', lambda: 'GAeval(%r, True) prints %r' % (text, buf.getvalue()))
            if len(ls) == 3:
                w.judge('pstr', ga, [current, text, 'echo'], eval(ls[1], dict(objs)), v, extra='the printed form %r of %r' % (ls[1], text))
        else:
            rec.check(buf.getvalue() == '', 'pstr', text, 'pstr', 'GAeval prints without being asked')
        for k in G.seen:
            rec.event(k, text)
        w.judge('eval-default' if dflt else 'eval', ga, [current, text], r, v, extra='%r with order %s, names %s' % (text, current, keep))
    rec.check({k: str(v) for k, v in objs.items()} == keep and set(env) - {'__builtins__'} == set(objs), 'env-kept', str(keep), 'env-kept', 'GAeval changed its names')
