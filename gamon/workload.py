"""Random multivector programs shared by the product checks."""
from . import gen, monitor, num, ref


def world_for(spec, rec, ops, a=None, env=None):
    env = env or num.Env(spec['seed'])
    w = monitor.World(rec, env, ops)
    return w


def algebra_world(spec, rec, ops, a):
    w = world_for(spec, rec, ops)
    ga, g = gen.build(a)
    w.register(ga, g)
    return w, ga


def binop(op, A, B):
    return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B,
            '+': lambda: A + B, '-': lambda: A - B, '<<': lambda: A << B, '>>': lambda: A >> B}[op]()


def size(M):
    return len(str(M.obj))


def run_program(rng, ga, regs, ops, steps, unary=(), scal_prob=.15, maxlen=1500, keep=12):
    """Apply random operators to random registers.  ``regs`` grows with results."""
    for _ in range(steps):
        i, j = rng.randrange(len(regs)), rng.randrange(len(regs))
        A, B = regs[i], regs[j]
        if unary and rng.random() < .35:
            u = rng.choice(list(unary))
            R = u(A)
        else:
            op = rng.choice(list(ops))
            if rng.random() < scal_prob and op in ('*', '^', '|', '<', '>', '+', '-', '<<', '>>'):
                s = gen.as_py_scalar(rng, gen.scalar_spec(rng))
                sympy_lhs = not isinstance(s, int)
                if rng.random() < .5:
                    R = binop(op, A, s)
                elif op in '<>':
                    # comparison operators reflect onto the other operand
                    R = binop(op, A, s)
                else:
                    R = binop(op, s, A)
            else:
                R = binop(op, A, B)
        if hasattr(R, 'Ga') and hasattr(R, 'obj'):
            if size(R) <= maxlen:
                regs.append(R)
                if len(regs) > keep:
                    regs.pop(rng.randrange(len(regs) - 1))
    return regs
