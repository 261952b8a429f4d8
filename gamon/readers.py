"""Readers for the text and LaTeX the library prints.

A printed object is evaluated to {derivative multi-index: {blade mask: number}}
(the empty multi-index for plain multivectors) at the point of an Env.  The
readers know mathematical notation and the names of the atoms in the printed
object; they share nothing with the printers.
"""
import re
from fractions import Fraction

import mpmath
from sympy import Derivative, Symbol, sympify
from sympy.core.function import AppliedUndef

from . import ref

mpmath.mp.dps = max(mpmath.mp.dps, 40)


class Unreadable(Exception):
    pass


# ---- operator polynomials -------------------------------------------------

def const(x):
    return {(): ref.clean({0: x})}


def vec(i):
    return {(): {1 << i: Fraction(1)}}


def pd(m):
    return {tuple(sorted(m.items())): {0: Fraction(1)}} if m else const(Fraction(1))


def padd(A, B):
    out = {k: dict(v) for k, v in A.items()}
    for k, v in B.items():
        out[k] = ref.add(out.get(k, {}), v)
    return {k: ref.clean(v) for k, v in out.items()}


def pneg(A):
    return {k: ref.neg(v) for k, v in A.items()}


def pclean(A):
    return {k: v for k, v in ((k, ref.clean(v)) for k, v in A.items()) if v}


def pequal(A, B):
    A, B = pclean(A), pclean(B)
    for k in set(A) | set(B):
        if not ref.equal(A.get(k, {}), B.get(k, {})):
            return False
    return True


def scalar_of(A):
    A = pclean(A)
    if not A:
        return Fraction(0)
    if set(A) != {()} or set(A[()]) != {0}:
        raise Unreadable('scalar expected')
    return A[()][0]


def numpow(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction) and b.denominator == 1:
        if b < 0 and a == 0:
            raise Unreadable('division by zero')
        return a ** int(b)
    r = mpmath.power(ref.to_mp(a), ref.to_mp(b))
    if isinstance(r, mpmath.mpc) and abs(r.imag) < mpmath.mpf('1e-30') * max(1, abs(r.real)):
        r = r.real
    return r


FUN = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'exp': mpmath.exp, 'sqrt': mpmath.sqrt, 'sinh': mpmath.sinh,
       'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'log': mpmath.log, 'Abs': abs, 'atan': mpmath.atan, 'asin': mpmath.asin, 'acos': mpmath.acos,
       'cot': mpmath.cot}


def call(name, v):
    if name == 'sqrt' and isinstance(v, Fraction) and v >= 0:
        import math
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return Fraction(p, q)
    if name == 'Abs':
        return abs(v)
    return FUN[name](ref.to_mp(v))


class Context:
    """Names an object may mention: basis vectors, symbols and functions in ``exprs``."""

    def __init__(self, ga, env, cl, exprs=(), wedge=True):
        self.ga, self.env, self.cl = ga, env, cl
        self.basis = [str(b.name) for b in ga.basis]
        self.syms, self.funcs, self.dots = {}, {}, {}
        self.sides = set()      # on which side of its blades a derivative was written
        for e in exprs:
            e = sympify(e)
            for s in e.atoms(Symbol):
                if s.is_commutative:
                    self.syms[s.name] = s
            for f in e.atoms(AppliedUndef):
                self.funcs[f.func.__name__] = f
            self._dots(e)
        for s in ga.coords or ():
            if isinstance(s, Symbol):
                self.syms[s.name] = s

    def _dots(self, e):
        for x in e.atoms() | {e}:
            pass
        stack = [e]
        while stack:
            x = stack.pop()
            if type(x).__name__ == 'DotProductSymbol':
                self.dots[tuple(a.name for a in x.args)] = x
            else:
                stack.extend(getattr(x, 'args', ()))

    def val(self, e):
        return self.env.num(e)

    def deriv(self, m, fname):
        f = self.funcs[fname]
        d = Derivative(f, *[(self.syms[v], k) for v, k in m.items()], evaluate=False) if False else f
        for v, k in m.items():
            d = d.diff(self.syms[v], k)
        return self.env.num(d)

    def mul(self, A, B):
        for l, r, side in ((A, B, 'blade*D'), (B, A, 'D*blade')):
            if any(any(m for m in v) for v in l.values()) and any(k for k in r):
                self.sides.add(side)
        out = {}
        for k, a in A.items():
            for l, b in B.items():
                m = dict(k)
                for v, n in l:
                    m[v] = m.get(v, 0) + n
                key = tuple(sorted(m.items()))
                out[key] = ref.add(out.get(key, {}), self.cl.gp(a, b))
        return pclean(out)

    def div(self, A, B):
        d = scalar_of(B)
        if d == 0:
            raise Unreadable('division by zero')
        return {k: ref.smul(ref.ndiv(Fraction(1), d), v) for k, v in A.items()}


# ---- plain text -----------------------------------------------------------

TOK = re.compile(r'\s*(?:(?P<num>\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)|(?P<D>D(?:\{[^{}]*\}(?:\^\d+)?)+)'
                 r'|(?P<name>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>\*\*|[-+*/^(),.]))')


class Text:
    def __init__(self, s, ctx):
        self.c = ctx
        self.t = []
        i = 0
        s = s.strip()
        odd = [n for n in list(ctx.syms) + list(ctx.funcs) if not n.isidentifier()]
        tok = TOK
        if odd:
            tok = re.compile(r'\s*(?:(?P<name>' + '|'.join(re.escape(n) for n in sorted(odd, key=len, reverse=True)) + r')|' + TOK.pattern.replace('(?P<name>', '(?P<name2>') + ')')
        while i < len(s):
            m = tok.match(s, i)
            if not m or m.end() == i:
                raise Unreadable('cannot read %r at %r' % (s, s[i:i + 20]))
            self.t.append((m.lastgroup.rstrip('2'), m.group(m.lastgroup)))
            i = m.end()
            while i < len(s) and s[i].isspace():
                i += 1
        self.i = 0
        self.s = s

    def peek(self, *ops):
        return self.i < len(self.t) and self.t[self.i][0] == 'op' and self.t[self.i][1] in ops

    def take(self):
        if self.i >= len(self.t):
            raise Unreadable('unexpected end of %r' % self.s)
        self.i += 1
        return self.t[self.i - 1]

    def need(self, op):
        k, v = self.take()
        if v != op:
            raise Unreadable('expected %s in %r, found %s' % (op, self.s, v))

    def read(self):
        if not self.t:
            raise Unreadable('empty output')
        v = self.expr(True)
        if self.i != len(self.t):
            raise Unreadable('trailing %r in %r' % (self.t[self.i:], self.s))
        return v

    def args(self, f):
        """Optional argument list of an undefined function."""
        if self.peek('('):
            want = '(' + ','.join(str(a) for a in self.c.funcs[f].args) + ')'
            got = ''
            while not got.endswith(')'):
                got += self.take()[1]
            if got != want:
                raise Unreadable('arguments %s of %s' % (got, f))

    def expr(self, top=False):
        v = self.term()
        ts = [v]
        while self.peek('+', '-'):
            _, o = self.take()
            if self.peek('+'):
                raise Unreadable('doubled sign in %r' % self.s)
            w = self.term()
            ts.append(w)
            v = padd(v, w if o == '+' else pneg(w))
        if top:
            self.terms = ts
        return v

    def term(self):
        v = self.unary()
        while self.peek('*', '/'):
            _, o = self.take()
            w = self.unary()
            v = self.c.mul(v, w) if o == '*' else self.c.div(v, w)
        return v

    def unary(self):
        if self.peek('-'):
            self.take()
            return pneg(self.unary())
        if self.peek('+'):
            self.take()
            return self.unary()
        v = self.wedge()
        if self.peek('**'):
            self.take()
            w = self.unary()
            return const(numpow(scalar_of(v), scalar_of(w)))
        return v

    def wedge(self):
        v, isv = self.atom()
        if self.peek('^'):
            if not isv:
                raise Unreadable('^ after a non-vector in %r' % self.s)
            acc = v[()]
            while self.peek('^'):
                self.take()
                w, isv = self.atom()
                if not isv:
                    raise Unreadable('^ before a non-vector in %r' % self.s)
                acc = ref.wedge(acc, w[()])
            return {(): acc}
        return v

    def atom(self):
        k, v = self.take()
        c = self.c
        if k == 'num':
            return const(Fraction(v)), False
        if k == 'D':
            m = {}
            for x, n in re.findall(r'\{([^{}]*)\}(?:\^(\d+))?', v):
                if x:
                    m[x] = m.get(x, 0) + int(n or 1)
            if self.i < len(self.t) and self.t[self.i][0] == 'name' and self.t[self.i][1] in c.funcs and m:
                f = self.take()[1]
                return const(c.deriv(m, f)), False
            for x in m:
                if x not in c.syms:
                    raise Unreadable('derivative with respect to unknown %s' % x)
            return pd(m), False
        if k == 'name':
            if v in c.basis:
                return vec(c.basis.index(v)), True
            if self.peek('(') and v in FUN:
                self.take()
                w = self.expr()
                self.need(')')
                return const(call(v, scalar_of(w))), False
            if v in c.syms:
                return const(c.val(c.syms[v])), False
            if v in c.funcs:
                self.args(v)
                return const(c.val(c.funcs[v])), False
            if v == 'Derivative' and self.peek('('):
                self.take()
                f = self.take()[1]
                if f not in c.funcs:
                    raise Unreadable('derivative of unknown %s' % f)
                self.args(f)
                m = {}
                while self.peek(','):
                    self.take()
                    k = 1
                    if self.peek('('):
                        self.take()
                        x = self.take()[1]
                        self.need(',')
                        k = int(self.take()[1])
                        self.need(')')
                    else:
                        x = self.take()[1]
                    if x not in c.syms:
                        raise Unreadable('derivative with respect to unknown %s' % x)
                    m[x] = m.get(x, 0) + k
                self.need(')')
                return const(c.deriv(m, f)), False
            if v == 'pi':
                return const(+mpmath.pi), False
            if v == 'E':
                return const(+mpmath.e), False
            if v == 'I':
                return const(mpmath.mpc(0, 1)), False
            nb = nowedge(c, v)
            if nb is not None:
                return {(): nb}, False
            raise Unreadable('unknown name %s in %r' % (v, self.s))
        if v == '(':
            if (self.i + 3 < len(self.t) and self.t[self.i][0] == 'name' and self.t[self.i + 1][1] == '.' and
                    (self.t[self.i][1], self.t[self.i + 2][1]) in c.dots and self.t[self.i + 3][1] == ')'):
                d = c.dots[(self.t[self.i][1], self.t[self.i + 2][1])]
                self.i += 4
                return const(c.val(d)), False
            w = self.expr()
            self.need(')')
            return w, False
        raise Unreadable('unexpected %s in %r' % (v, self.s))


def nowedge(c, name):
    """e_12 -> mask, when every basis vector is root_x with one root."""
    sp = [b.split('_') for b in c.basis]
    if any(len(x) != 2 or x[0] != sp[0][0] for x in sp) or name.count('_') != 1:
        return None
    root, subs = name.split('_')
    if root != sp[0][0]:
        return None
    m, rest = 0, subs
    for i, x in enumerate(sp):
        if rest.startswith(x[1]):
            m |= 1 << i
            rest = rest[len(x[1]):]
    return {m: Fraction(1)} if not rest and bin(m).count('1') > 1 else None


ANSI = re.compile('\033\\[[0-9;]*m')


def repeated(terms):
    """Blades that more than one top-level term mentions (the scalar part may be a sum)."""
    seen, rep = set(), set()
    for t in terms:
        for k, v in pclean(t).items():
            for m in v:
                if m and (k, m) in seen:
                    rep.add((k, m))
                seen.add((k, m))
    return rep


def read_text(s, ctx, reps=False):
    T = Text(ANSI.sub('', s).replace('\n', ' '), ctx)
    v = T.read()
    return (v, repeated(T.terms)) if reps else v


# ---- LaTeX ----------------------------------------------------------------

LTOK = re.compile(r'(\\[A-Za-z]+|\\[^A-Za-z]|\d+\.\d+|\d+|[A-Za-z]|[^\sA-Za-z\d])')
DROP = {r'\left', r'\right', r'\displaystyle', r'\,', r'\;', r'\ '}
GREEK = {'alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta', 'kappa', 'lambda', 'mu', 'nu', 'xi', 'pi', 'rho', 'sigma', 'tau',
         'phi', 'chi', 'psi', 'omega'}


def toks(s):
    return [r'\boldsymbol' if t == r'\mathbf' else t for t in LTOK.findall(s) if t not in DROP]


def glyph(s):
    return '\\' + s if s in GREEK else s


def name_latex(name, bold=False):
    """LaTeX of a name root__super_sub (the sympy naming convention), independent of the printers."""
    parts = re.split(r'(__|_|\^)', name)
    root, sup, sub = parts[0], [], []
    for mark, p in zip(parts[1::2], parts[2::2]):
        (sub if mark == '_' else sup).append(p)
    m = re.fullmatch(r'([A-Za-z]+)(\d+)', root)
    if m:
        root = m.group(1)
        sub.insert(0, m.group(2))
    s = glyph(root)
    if bold:
        s = r'\boldsymbol{%s}' % s
    if sup:
        s += '^{%s}' % ' '.join(glyph(x) for x in sup)
    if sub:
        s += '_{%s}' % ' '.join(glyph(x) for x in sub)
    return s


class Latex:
    def __init__(self, s, ctx):
        self.c, self.s, self.i = ctx, s, 0
        self.t = toks(s)
        self.lits = []
        for i, b in enumerate(ctx.basis):
            self.lits.append((toks(name_latex(b, True)), 'vec', i))
        sp = [b.split('_') for b in ctx.basis]
        self.nw = []
        if sp and all(len(x) == 2 and x[0] == sp[0][0] for x in sp):
            for m in range(1 << len(sp)):
                if bin(m).count('1') > 1:
                    nm = sp[0][0] + '_' + ''.join(x[1] for i, x in enumerate(sp) if m >> i & 1)
                    self.lits.append((toks(name_latex(nm, True)), 'blade', m))
        for n, s_ in ctx.syms.items():
            self.lits.append((toks(name_latex(n)) if n.isidentifier() else toks(n), 'sym', s_))
            if not n.isidentifier():
                self.lits.append((toks(name_latex(n)), 'sym', s_))
        for n, f in ctx.funcs.items():
            self.lits.append((toks(name_latex(n)) if n.isidentifier() else toks(n), 'fun', f))
        self.lits.sort(key=lambda x: -len(x[0]))

    def lit(self, kinds=None):
        for ts, k, o in self.lits:
            if (kinds is None or k in kinds) and self.t[self.i:self.i + len(ts)] == ts:
                if k == 'sym' and ts[-1] != '}' and False:
                    continue
                return ts, k, o
        return None

    def at(self, *v):
        return self.i < len(self.t) and self.t[self.i] in v

    def take(self):
        if self.i >= len(self.t):
            raise Unreadable('unexpected end of %r' % self.s)
        self.i += 1
        return self.t[self.i - 1]

    def need(self, v):
        x = self.take()
        if x != v:
            raise Unreadable('expected %s found %s in %r' % (v, x, self.s))

    def read(self):
        if not self.t:
            raise Unreadable('empty output')
        v = self.expr(True)
        if self.i != len(self.t):
            raise Unreadable('trailing %r in %r' % (self.t[self.i:], self.s))
        return v

    def expr(self, top=False):
        neg = False
        if self.at('-', '+'):
            neg = self.take() == '-'
        v = self.term()
        v = pneg(v) if neg else v
        ts = [v]
        while self.at('+', '-'):
            o = self.take()
            w = self.term()
            ts.append(w)
            v = padd(v, w if o == '+' else pneg(w))
        if top:
            self.terms = ts
        return v

    def stop(self):
        return self.i >= len(self.t) or self.at('+', '-', ')', '}', ']', '|', ',')

    def term(self):
        if self.stop():
            raise Unreadable('missing term in %r' % self.s)
        v = self.factor()
        while not self.stop():
            if self.at(r'\cdot'):
                self.take()
            v = self.c.mul(v, self.factor())
        return v

    def group(self):
        """{...} or a single token, as an expression."""
        if self.at('{'):
            self.take()
            v = self.expr()
            self.need('}')
            return v
        return self.primary()

    def power(self, v):
        while self.at('^'):
            self.take()
            v = const(numpow(scalar_of(v), scalar_of(self.group())))
        return v

    def factor(self):
        return self.power(self.primary())

    def fn(self, name):
        e = None
        if self.at('^'):
            self.take()
            e = scalar_of(self.group())
        v = self.group()
        r = call(name, scalar_of(v))
        return const(numpow(r, e) if e is not None else r)

    def partial(self):
        r"""After \frac{\partial: read ^{n}}{\partial x ...} -> multi-index."""
        total = 1
        if self.at('^'):
            self.take()
            total = int(scalar_of(self.group()))
        self.need('}')
        self.need('{')
        m = {}
        while not self.at('}'):
            if self.take() not in (r'\partial', 'd'):
                raise Unreadable('derivative denominator in %r' % self.s)
            n = None
            if self.at('^'):
                self.take()
                n = int(scalar_of(self.group()))
            l = self.lit(('sym',))
            if not l:
                raise Unreadable('derivative with respect to what, in %r' % self.s)
            self.i += len(l[0])
            if self.at('^'):
                if n is not None:
                    raise Unreadable('two orders in %r' % self.s)
                self.take()
                n = int(scalar_of(self.group()))
            m[l[2].name] = m.get(l[2].name, 0) + (n or 1)
        self.need('}')
        if sum(m.values()) != total:
            raise Unreadable('order of derivative inconsistent in %r' % self.s)
        return m

    def bare_partial(self):
        r"""Is this the numerator \partial or \partial^{n} of a derivative operator?"""
        j = self.i + 1
        if self.t[j:j + 1] == ['^']:
            j += 1
            j = self.t.index('}', j) + 1 if self.t[j] == '{' else j + 1
        return self.t[j:j + 3] == ['}', '{', self.t[self.i]]

    def after_partial(self, m):
        l = self.lit()
        if l and l[1] == 'fun':
            return const(self.function(l, m))
        return pd(m)

    def function(self, l, m=None):
        f = l[2]
        self.i += len(l[0])
        e = None
        if self.at('^'):
            self.take()
            e = scalar_of(self.group())
        save = self.i
        # optional argument list
        braces = self.at('{')
        if braces:
            self.take()
        if self.at('('):
            want = []
            for a in f.args:
                want += toks(name_latex(a.name)) + [',']
            want = ['('] + want[:-1] + [')'] + (['}'] if braces else [])
            if self.t[self.i:self.i + len(want)] == want:
                self.i += len(want)
            else:
                self.i = save
        else:
            self.i = save
        v = self.c.deriv(m, f.func.__name__) if m else self.c.val(f)
        return v if e is None else numpow(v, e)

    def primary(self):
        c = self.c
        l = self.lit()
        if l:
            ts, k, o = l
            if k == 'vec':
                self.i += len(ts)
                acc = {1 << o: Fraction(1)}
                while self.at(r'\wedge'):
                    self.take()
                    l = self.lit(('vec',))
                    if not l:
                        raise Unreadable('wedge before a non-vector in %r' % self.s)
                    self.i += len(l[0])
                    acc = ref.wedge(acc, {1 << l[2]: Fraction(1)})
                return {(): acc}
            if k == 'blade':
                self.i += len(ts)
                return {(): {o: Fraction(1)}}
            if k == 'sym':
                self.i += len(ts)
                return const(c.val(o))
            return const(self.function(l))
        t = self.take()
        if re.fullmatch(r'\d+(\.\d+)?', t):
            return const(Fraction(t))
        if t == r'\frac':
            self.need('{')
            if self.at(r'\partial', 'd') and self.bare_partial():
                self.take()
                return self.after_partial(self.partial())
            a = self.expr()
            self.need('}')
            b = self.group()
            return c.div(a, b)
        if t == r'\partial':
            m = {}
            while True:
                n = 1
                if self.at('^'):
                    self.take()
                    n = int(scalar_of(self.group()))
                self.need('_')
                self.need('{')
                l = self.lit(('sym',))
                if not l:
                    raise Unreadable('derivative with respect to what, in %r' % self.s)
                self.i += len(l[0])
                self.need('}')
                m[l[2].name] = m.get(l[2].name, 0) + n
                if not self.at(r'\partial'):
                    break
                self.take()
            return self.after_partial(m)
        if t == r'\sqrt':
            n = Fraction(2)
            if self.at('['):
                self.take()
                n = scalar_of(self.expr())
                self.need(']')
            v = scalar_of(self.group())
            return const(call('sqrt', v) if n == 2 else numpow(v, ref.ndiv(Fraction(1), n)))
        if t == '(':
            save = self.i
            a = self.lit(('vec',))
            if a:
                self.i += len(a[0])
                if self.at(r'\cdot'):
                    self.take()
                    b = self.lit(('vec',))
                    if b:
                        self.i += len(b[0])
                        d = c.dots.get((c.basis[a[2]], c.basis[b[2]]))
                        if d is not None and self.at(')'):
                            self.take()
                            return const(c.val(d))
                self.i = save
            v = self.expr()
            self.need(')')
            return v
        if t == '{':
            v = self.expr()
            self.need('}')
            return v
        if t == '|':
            v = self.expr()
            self.need('|')
            return const(abs(scalar_of(v)))
        if t == 'e' and self.at('^'):
            self.take()
            return const(mpmath.exp(ref.to_mp(scalar_of(self.group()))))
        if t == 'e':
            return const(+mpmath.e)
        if t == r'\pi':
            return const(+mpmath.pi)
        if t == 'i':
            return const(mpmath.mpc(0, 1))
        if t[0] == '\\' and t[1:] in FUN:
            return self.fn(t[1:])
        if t == r'\operatorname':
            self.need('{')
            nm = ''
            while not self.at('}'):
                nm += self.take()
            self.take()
            if nm in FUN:
                return self.fn(nm)
        raise Unreadable('cannot read %r at token %s' % (self.s, t))


def latex_lines(s):
    """Lines of an aligned block, or the single line."""
    m = re.fullmatch(r'\s*\\begin\{aligned\}(?:\[t\])?(.*)\\end\{aligned\}\s*', s, re.S)
    if not m:
        return [s]
    rows = [x.strip() for x in re.sub(r'(^|\\\\)\s*&', r'\1', m.group(1).strip()).split('\\\\')]
    return rows[:-1] if len(rows) > 1 and not rows[-1] else rows      # a trailing \\\\ shows nothing


def read_latex(s, ctx, reps=False):
    v, ts = {}, []
    for l in latex_lines(s):
        L = Latex(l, ctx)
        v = padd(v, L.read())
        ts += L.terms
    return (v, repeated(ts)) if reps else v
