"""Hooks on galgebra's public multivector API, judged by the reference model.

``World`` wraps methods of ``Mv`` while a workload runs.  Every top-level call is
an event: operands and result are read back from the objects the library holds,
specialised to numbers and compared with what the reference algebra computes
from the operands alone.
"""
import contextlib
import functools

from . import num, ref


class World:
    def __init__(self, rec, env, ops=(), sig_prefix='', nested=False):
        self.rec = rec
        self.env = env
        self.ops = set(ops)
        self.nested = nested
        self.depth = 0
        self.metrics = {}      # ga.name -> expected symbolic metric (list of lists)
        self._cl = {}
        self.sig_prefix = sig_prefix

    def register(self, ga, g):
        self.metrics[ga.name] = g

    def cl(self, ga):
        c = self._cl.get(ga.name)
        if c is None:
            g = self.metrics.get(ga.name)
            if g is None:
                g = ga.g
            c = ref.Clifford(num.metric_value(g, self.env))
            self._cl[ga.name] = c
        return c

    def val(self, x, ga):
        return num.mv_value(x, self.env, ga, self.cl(ga))

    def judge(self, op, ga, args, got, want, extra=''):
        """Compare a result with a reference value and record the event."""
        key = '%s|%s|%s' % (op, ga.n, [sorted((k, str(v)) for k, v in a.items()) if isinstance(a, dict) else str(a)
                                       for a in args])
        self.rec.event(op, key)
        if isinstance(got, dict):
            g = got
        else:
            try:
                g = self.val(got, ga)
            except num.Malformed as e:
                self.rec.violate(self.sig_prefix + op + ':malformed', 'result of %s is malformed: %s' % (op, e))
                return False
            except num.NonFinite as e:
                self.rec.violate(self.sig_prefix + op + ':nonfinite', 'result of %s is not finite: %s' % (op, e))
                return False
        if not ref.equal(g, want):
            self.rec.violate(self.sig_prefix + op,
                             '%s in dim %d %s: args %s got %s want %s' % (op, ga.n, extra, show(args), show([g]), show([want])))
            return False
        return True

    @contextlib.contextmanager
    def installed(self):
        from galgebra.mv import Mv
        from galgebra.dop import _BaseDop
        saved = {}
        world = self

        def wrap(name):
            orig = getattr(Mv, name)
            oracle = ORACLES[name]

            @functools.wraps(orig)
            def hook(self, *a, **k):
                if world.depth and not world.nested:
                    return orig(self, *a, **k)
                if a and isinstance(a[0], _BaseDop):
                    return orig(self, *a, **k)
                try:
                    pre = [world.val(self, self.Ga)] + [
                        world.val(x, self.Ga) if not isinstance(x, str) and x is not None else x for x in a]
                except (num.Malformed, num.NonFinite, TypeError, AttributeError):
                    world.rec.note('operand-not-evaluable')
                    pre = None
                world.depth += 1
                try:
                    res = orig(self, *a, **k)
                finally:
                    world.depth -= 1
                if res is NotImplemented or pre is None or isinstance(res, _BaseDop):
                    return res
                want = oracle(world, self.Ga, pre, a, k)
                if want is not None:
                    world.judge(name, self.Ga, pre, res, want)
                return res
            return orig, hook

        for name in self.ops:
            orig, hook = wrap(name)
            saved[name] = Mv.__dict__.get(name)
            setattr(Mv, name, hook)
        try:
            yield self
        finally:
            for name, o in saved.items():
                if o is None:
                    delattr(Mv, name)
                else:
                    setattr(Mv, name, o)


def show(vals):
    out = []
    for v in vals:
        if isinstance(v, dict):
            out.append('{' + ', '.join('%s:%s' % (bin(k)[2:], str(x)[:24]) for k, x in sorted(v.items())) + '}')
        else:
            out.append(str(v)[:40])
    return ' ; '.join(out)[:900]


HALF = ref.Fraction(1, 2)


def _bin(f):
    return lambda w, ga, p, a, k: f(w.cl(ga), p[0], p[1])


def _rbin(f):
    return lambda w, ga, p, a, k: f(w.cl(ga), p[1], p[0])


def _pow(w, ga, p, a, k):
    n = a[0]
    if not isinstance(n, int) or n < 0:
        return None
    return w.cl(ga).power(p[0], n)


def _truediv(w, ga, p, a, k):
    C = w.cl(ga)
    if getattr(a[0], 'obj', None) is None:
        if ref.scalar(p[1]) == 0:
            return None
        return ref.smul(ref.ndiv(1, ref.scalar(p[1])), p[0])
    inv = C.reverse_trick_inverse(p[1])
    return None if inv is None else C.gp(p[0], inv)


ORACLES = {
    '__mul__': _bin(lambda C, a, b: C.gp(a, b)),
    '__rmul__': _rbin(lambda C, a, b: C.gp(a, b)),
    '__xor__': _bin(lambda C, a, b: C.wedge(a, b)),
    '__rxor__': _rbin(lambda C, a, b: C.wedge(a, b)),
    '__or__': _bin(lambda C, a, b: C.hestenes(a, b)),
    '__ror__': _rbin(lambda C, a, b: C.hestenes(a, b)),
    '__lt__': _bin(lambda C, a, b: C.lcont(a, b)),
    '__gt__': _bin(lambda C, a, b: C.rcont(a, b)),
    '__add__': _bin(lambda C, a, b: ref.add(a, b)),
    '__radd__': _rbin(lambda C, a, b: ref.add(a, b)),
    '__sub__': _bin(lambda C, a, b: ref.sub(a, b)),
    '__rsub__': _rbin(lambda C, a, b: ref.sub(a, b)),
    '__neg__': lambda w, ga, p, a, k: ref.neg(p[0]),
    '__rshift__': _bin(lambda C, a, b: ref.smul(HALF, ref.sub(C.gp(a, b), C.gp(b, a)))),
    '__lshift__': _bin(lambda C, a, b: ref.smul(HALF, ref.add(C.gp(a, b), C.gp(b, a)))),
    '__rrshift__': _bin(lambda C, a, b: ref.smul(HALF, ref.sub(C.gp(b, a), C.gp(a, b)))),
    '__rlshift__': _bin(lambda C, a, b: ref.smul(HALF, ref.add(C.gp(a, b), C.gp(b, a)))),
    '__pow__': _pow,
    '__truediv__': _truediv,
    'rev': lambda w, ga, p, a, k: ref.rev(p[0]),
    '__invert__': lambda w, ga, p, a, k: ref.rev(p[0]),
    'g_invol': lambda w, ga, p, a, k: ref.invol(p[0]),
    'ccon': lambda w, ga, p, a, k: ref.ccon(p[0]),
    'even': lambda w, ga, p, a, k: {m: v for m, v in p[0].items() if ref.popcount(m) % 2 == 0},
    'odd': lambda w, ga, p, a, k: {m: v for m, v in p[0].items() if ref.popcount(m) % 2 == 1},
    'grade': lambda w, ga, p, a, k: ref.grade_part(p[0], a[0] if a else k.get('r', 0)),
    'get_grade': lambda w, ga, p, a, k: ref.grade_part(p[0], a[0] if a else k.get('r')),
    '__getitem__': lambda w, ga, p, a, k: ref.grade_part(p[0], a[0]),
    'scalar': lambda w, ga, p, a, k: ref.grade_part(p[0], 0),
}

PRODUCT_OPS = ['__mul__', '__rmul__']
OUTER_INNER_OPS = ['__xor__', '__rxor__', '__or__', '__ror__', '__lt__', '__gt__']
LINEAR_OPS = ['__add__', '__radd__', '__sub__', '__rsub__', '__neg__', '__rshift__', '__lshift__', '__rrshift__', '__rlshift__', '__pow__', '__truediv__']
GRADE_OPS = ['rev', '__invert__', 'g_invol', 'ccon', 'even', 'odd', 'grade', 'get_grade', '__getitem__', 'scalar']
