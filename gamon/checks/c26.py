"""C26 output redirection conserves output and restores state."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile

from sympy import Matrix, Rational, S, Symbol, sin, symbols

from .. import gen, monitor, num, ref
from . import c22

PROP = 'C26'
RULE = ('doc: random programs of Format, print (strings with every documented line prefix and operator, multivectors, operators, transformations, sympy objects, lists, sep/end, several lines), direct writes, Print_Function, '
        'local and global Fmt, restore/Format again, and tex or xpdf (to a scratch file), several documents per process; the generated document is compared line by line with a reference transducer written from the documentation '
        'and standard output must be the original object with text printing as before. gdoc: the same for gFormat, gprint, gPrint_Function and gxpdf. display: computations under random display settings must give the values they '
        'give without, and texts are as before when settings are put back. distinct_nontrivial counts distinct (program step, content).')
ASSUMPTIONS = ['the LaTeX of single objects is decided by C20 and only its place in the document here', 'blank lines carry no content', 'files are written with pdfprog=None, without running LaTeX or a viewer', 'settings passed to Format stay in force afterwards']
CASE_TIMEOUT = {'quick': 40, 'thorough': 120}
FRESH = True
REQUIRED = ['doc-line', 'doc-second', 'doc-head', 'stdout', 'after-text', 'gdoc', 'gdoc-text', 'gdoc-head', 'file', 'values', 'text-back', 'local-fmt', 'code', 'kept-part', 'verbatim', 'nothing-shown']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'family': f, 'seed': '%d.%d' % (seed, i)} for f, m in (('doc', 220), ('gdoc', 100), ('display', 140)) for i in range(m * k)]


def run(spec, rec):
    rng = gen.rng_for(spec)
    keep = sys.stdout
    try:
        {'doc': doc, 'gdoc': gdoc, 'display': display}[spec['family']](spec, rec, rng)
    finally:
        sys.stdout = keep


# ------------------------------------------------------------------ reference

def texify(s):
    """Operators of a left-hand side in LaTeX."""
    out, i = [], 0
    while i < len(s):
        m = re.match(r'[A-Za-z0-9_]+', s[i:])
        if m:
            t = m.group()
            out.append({'grad': r'\boldsymbol{\nabla} ', 'rgrad': r'\bar{\boldsymbol{\nabla}} '}.get(t, t))
            i += len(t)
            continue
        if s[i:i + 2] in ('<<', '>>'):
            out.append({'>>': r' \times ', '<<': r' \bar{\times} '}[s[i:i + 2]])
            i += 2
            continue
        c = s[i]
        if c == '^' and s[i + 1:i + 2] == '{':
            out.append(c)
        else:
            out.append({'|': r'\cdot ', '^': r'\W ', '*': ' ', '<': r'\rfloor ', '>': r'\lfloor '}.get(c, c))
        i += 1
    return ''.join(out)


def norm(s):
    return ' '.join(s.split())


def reference(text):
    """Nonblank lines of the document body for what was printed: (line, verbatim?)."""
    out, code = [], False
    for line in text.split('\n'):
        if not line:
            continue
        if line[:2] == '##':
            code = not code
            out.append((line[2:], True))
        elif code:
            out.append((line, True))
        elif line[0] == '#' and line[:2] != '#%':
            out.append((line[1:], True))
        else:
            if line[0] == '%':
                line = line[1:]
            elif line[:2] == '#%':
                line = line[2:]
            elif '=' in line:
                k = line.rindex('=')
                line = texify(line[:k]) + '=' + line[k + 1:]
            k = line.find('\\begin{align*}')
            if k >= 0:
                out.append((norm('\\begin{align*} ' + line[:k] + line[k + len('\\begin{align*}'):]), False))
            else:
                out.append((norm('\\begin{equation*} ' + line + ' \\end{equation*}'), False))
    return [x for x in out if x[0].strip()]


def split_doc(d):
    """(head, body lines) of a LaTeX document; None when it has not exactly one body."""
    if d.count('\\begin{document}') != 1 or d.count('\\end{document}') != 1:
        return None
    h, b = d.split('\\begin{document}')
    b, t = b.split('\\end{document}')
    if t.strip():
        return None
    return h, [l for l in b.split('\n') if l.strip()]


def head_ok(h, paper, pt, cls):
    if '\\documentclass[%s,fleqn]{%s}' % (pt, cls) not in h or h.count('\\documentclass') != 1:
        return False
    if paper == 'letter':
        return '\\geometry{' not in h
    w, t = (11, 8.5) if paper == 'landscape' else paper
    return 'papersize={%sin,%sin},total={%sin,%sin}' % (w, t, w - 1, t - 1) in h


# ------------------------------------------------------------------ contents

WORDS = ['abc', 'two words', 'x+y', '50%', 'a {b} c', r'\alpha\beta', 'f(x)', 'q; r', "it's", '100% of %s %d', 'a & b', '~', '[1, 2]', r'\frac{1}{2}', 'tab\there']
LHS = ['A*B', 'A^B', 'A^{2}', 'u|v', 'A<B', 'A>B', 'A<<B', 'A>>B', 'grad|F', 'F^rgrad', 'gradient', 'x_grad', 'grad*(A^B)', 'A', 'u*v^w|x', '(A<B)>>C', 'a*b = c', r'\f{A}{x}', 'e_1^e_2', 'grad', 'A^{-1}*B', 'x<=y', 'rgrad*grad']


class Marks:
    def __init__(self):
        self.i = 0

    def __call__(self):
        self.i += 1
        return 'M%dq' % self.i


def line_text(rng, mark):
    """A string a program could print."""
    k = rng.randrange(12)
    w, m = rng.choice(WORDS), mark()
    if k <= 2:
        return '%s %s =' % (rng.choice(LHS), m)
    if k == 3:
        return '%s %s = %s' % (m, rng.choice(LHS), rng.choice(LHS))
    if k == 4:
        return '#%s %s' % (w, m)
    if k == 5:
        return '%%%s %s = %s' % (rng.choice(LHS), m, w)
    if k == 6:
        return '#%%%s %s = %s' % (rng.choice(LHS), m, w)
    if k == 7:
        return '%s %s %s' % (w, m, rng.choice(LHS))
    if k == 8:
        return '##code %s\n  %s a=b*c\n#x %s\n##end %s' % (m, mark(), mark(), mark())
    if k == 9:
        return r'%s %s = \begin{align*} a & %s \\ b \end{align*}' % (m, rng.choice(['', 'u^v', 'A*B']), mark())
    if k == 10:
        return '%s %s\n%s = %s' % (m, w, rng.choice(LHS), mark())
    return '%s %s' % (m, w)


def things(rng, ga):
    """Objects to be printed."""
    from galgebra.lt import Mlt
    n = ga.n
    e = list(ga.mv()) if n > 1 else [ga.mv('v', 'vector')]
    x = Symbol('x', real=True)
    out = [ga.mv(rng.choice('ABF'), 'mv'), gen.mk(ga, gen.mvspec(rng, n)), e[0], ga.mv('f', 'scalar', f=True), ga.mv('v', 'vector', f=True), ga.I(), e[0] * (e[-1] + 2), ga.mv(0), x ** 2 + 1, Rational(2, 3), sin(x) / 2, 3, None, 2.5, [e[0], 1], (1, x), {'k': 1},
           Matrix([[1, x], [0, 2]]), 'plain', True]
    try:
        out += [ga.grad, ga.rgrad]
    except (ValueError, NotImplementedError, ZeroDivisionError):
        pass
    if n > 1:
        out += [ga.lt(rng.choice('LK')), ga.lt([e[-1]] + e[1:]), Mlt('T', ga, nargs=rng.choice([1, 2])), Mlt(lambda u: u | e[0], ga, nargs=1)]
    return out


def is_ga(v):
    from sympy import Basic
    from galgebra.mv import Mv, Dop
    from galgebra.lt import Lt, Mlt
    from sympy.matrices.matrixbase import MatrixBase
    from galgebra.printer import GaPrintable
    return isinstance(v, (Mv, Dop, Lt, Mlt, Basic, MatrixBase, GaPrintable))


def shown(v):
    """What one argument of print shows while LaTeX output is on."""
    from galgebra.printer import latex
    return latex(v) if is_ga(v) else str(v)


def setting(rng):
    return {'Fmode': rng.random() < .5, 'Dmode': rng.random() < .5}


def algebra(rng, spec):
    a = gen.algebra(rng, kinds=('euclid', 'ortho', 'nonortho', 'nonsing', 'symortho'), nmax=3, nmin=1, coords=True)
    a.pop('wedge', None)
    ga, g = gen.build(a)
    return a, ga


class Bad:
    def __str__(self):
        raise KeyError('bad')


def short_function():
    from galgebra.printer import Print_Function
    Print_Function()
    a = 'Zmark'
    return a


def gshort_function():
    from galgebra.gprinter import gPrint_Function
    gPrint_Function()
    b = 'Zmark2'
    return b


SRC = ["    a = 'Zmark'", '    return a', 'def short_function():']
GSRC = ["    b = 'Zmark2'", '    return b', 'def gshort_function():']


# ------------------------------------------------------------------ Format ... tex

def doc(spec, rec, rng):
    from galgebra import printer
    from galgebra.printer import Fmt, Format, GaLatexPrinter, Print_Function, tex, xpdf
    a, ga = algebra(rng, spec)
    mark = Marks()
    objs = things(rng, ga)
    probe = [o for o in objs if is_ga(o)]
    scratch = tempfile.mkdtemp(prefix='gamon26')
    outer = io.StringIO()
    sys.stdout = outer
    argv0 = sys.argv[0]
    try:
        def plain():
            k = outer.tell()
            for o in probe:
                print(o)
            print('p', probe[0], sep='|', end='!\n')
            s = outer.getvalue()[k:]
            return s
        before = plain()
        ndocs = rng.choice([1, 2, 2, 3])
        for d in range(ndocs):
            k0 = outer.tell()
            text, steps, parts = '', [], 0
            Format(**setting(rng))
            rec.check(sys.stdout is not outer, 'stdout', 'redirected', 'no-redirect', lambda: 'Format() number %d of the process does not redirect output' % (d + 1))
            for _ in range(rng.randint(2, 12)):
                r = rng.random()
                if r < .35:
                    t = line_text(rng, mark)
                    print(t)
                    text += t + '\n'
                elif r < .6:
                    lab = rng.choice(LHS) + ' ' + mark() + ' ='
                    o = rng.choice(objs)
                    text += lab + ' ' + shown(o) + '\n'
                    print(lab, o)
                elif r < .72:
                    args = [rng.choice(objs) if rng.random() < .6 else mark() for _ in range(rng.randint(1, 3))]
                    sep, end = rng.choice([' ', ' ', ', ', '']), rng.choice(['\n', '\n', ' end\n', ' '])
                    text += sep.join(shown(v) for v in args) + end
                    print(*args, sep=sep, end=end)
                elif r < .78:
                    o = rng.choice([x for x in probe if hasattr(x, 'Fmt')])
                    k, lab = rng.choice([1, 2, 3]), rng.choice([None, None, 'X' + mark()])
                    f = o.Fmt(k, lab)
                    b4 = shown(o)
                    text += shown(f) + '\n'
                    print(f)
                    rec.check(shown(o) == b4, 'local-fmt', 'latex %s' % b4, 'local-fmt', lambda: 'o.Fmt changes how o is shown afterwards')
                elif r < .82:
                    k = rng.choice([1, 2, 3])
                    Fmt(k)
                elif r < .87:
                    t = mark() + ' raw ' + rng.choice(WORDS)
                    sys.stdout.write(t + '\n')
                    text += t + '\n'
                elif r < .9:
                    Format(**setting(rng))           # once more: still one document
                elif r < .93:
                    try:
                        print(Bad())
                    except KeyError:
                        pass
                elif r < .96 and text[-1:] in ('', '\n'):
                    k = len(sys.stdout.getvalue())
                    short_function()
                    got = sys.stdout.getvalue()[k:]
                    text += got
                    rec.check(all(l in got for l in SRC), 'code', 'Print_Function', 'print-function', lambda: 'Print_Function gives %r' % got)
                elif r < .98:
                    GaLatexPrinter.restore()
                    parts += 1
                    rec.check(sys.stdout is outer, 'stdout', 'restore', 'stdout', lambda: 'restore() leaves another standard output')
                    Format(**setting(rng))
                    rec.event('kept-part', text)
                else:
                    b = io.StringIO()
                    print(mark(), rng.choice(objs), file=b)       # elsewhere
            Fmt(1)
            k1 = outer.tell()
            rec.check(k1 == k0, 'nothing-shown', text, 'leak', lambda: 'text printed between Format and tex shows on standard output: %r' % outer.getvalue()[k0:])
            paper, pt = rng.choice([(14, 11), (14, 11), 'letter', 'landscape', (8, 10)]), rng.choice(['10pt', '10pt', '12pt'])
            prog = debug = False
            r = rng.random()
            if r < .6:
                D = tex(paper=paper, pt=pt)
            else:
                fn = os.path.join(scratch, 'd%d.tex' % d)
                if rng.random() < .3:
                    sys.argv[0] = os.path.join(scratch, 'd%d.py' % d)
                    res = xpdf(paper=paper, pt=pt, pdfprog=None)
                    sys.argv[0] = argv0
                else:
                    res = xpdf(fn, paper=paper, pt=pt, pdfprog=None)
                ls = sorted(os.listdir(scratch))
                rec.check(res is None and ls == ['d%d.tex' % d], 'file', str(ls), 'file', lambda: 'xpdf leaves the files %s' % ls)
                with open(fn) as f:
                    D = f.read()
                os.remove(fn)
            rec.check(sys.stdout is outer, 'stdout', 'tex', 'stdout', lambda: 'standard output is not restored by tex')
            sys.stdout = outer
            rec.check(outer.tell() == k1, 'nothing-shown', 'tex' + text, 'leak', lambda: 'tex shows text on standard output: %r' % outer.getvalue()[k1:])
            judge_doc(rec, D, text, paper, pt, 'report', d)
            after = plain()
            rec.check(after == before, 'after-text', '%s %s' % (d, before), 'after-text', lambda: 'printing after tex gives %r, before Format %r' % (after[:400], before[:400]))
    finally:
        sys.argv[0] = argv0
        shutil.rmtree(scratch, ignore_errors=True)


def judge_doc(rec, D, text, paper, pt, cls, d):
    sp = split_doc(D)
    if not rec.check(sp is not None, 'doc-head', 'one %s' % d, 'doc-frame', lambda: 'not one document: %r' % D[:300]):
        return
    h, body = sp
    rec.check(head_ok(h, paper, pt, cls), 'doc-head', '%s %s' % (paper, pt), 'doc-head', lambda: 'head for paper %s, %s is %r' % (paper, pt, h[:200]))
    want = reference(text)
    ok = len(want) == len(body)
    bad = None
    for i in range(min(len(want), len(body))):
        w, verb = want[i]
        g = body[i] if verb else norm(body[i])
        rec.event('verbatim' if verb else 'doc-line', w)
        if g != w:
            ok, bad = False, i
            break
    if d:
        rec.event('doc-second', text)
    if not ok:
        i = bad if bad is not None else min(len(want), len(body))
        rec.violate('doc', 'document %d, line %d of %d: %r, expected %r of %d lines; printed %r' % (d + 1, i, len(body), body[i:i + 1], want[i:i + 1], len(want), text[:600]))


# ------------------------------------------------------------------ gFormat ... gxpdf

def gparts(args, latexing):
    from galgebra.printer import latex
    s = ''
    for i, v in enumerate(args):
        if isinstance(v, str):
            s += v.replace('\\\\', '\\end{equation*}\n\\begin{equation*} ') if i else v
        elif isinstance(v, type):
            s += ' \\text{' + str(v) + '} ' if latexing else str(v)
        else:
            s += ' ' + (latex(v) if latexing else str(v)) + ' '
    return s


def gdoc(spec, rec, rng):
    from galgebra.gprinter import gFormat, gprint, gxpdf
    from galgebra.printer import Fmt
    a, ga = algebra(rng, spec)
    mark = Marks()
    objs = [o for o in things(rng, ga) if not isinstance(o, str)] + [int, type(ga)]
    scratch = tempfile.mkdtemp(prefix='gamon26')
    outer = io.StringIO()
    sys.stdout = outer

    def args(latexing):
        out = []
        for i in range(rng.randint(1, 4)):
            if rng.random() < .5:
                out.append(mark() + ' ' + rng.choice(WORDS + LHS + ([r'a \\ b'] if i and latexing else [])) + ' ')
            else:
                out.append(rng.choice(objs))
        return out
    try:
        for _ in range(rng.randint(0, 3)):
            k = outer.tell()
            x = args(False)
            want = gparts(x, False) + '\n'
            gprint(*x)
            got = outer.getvalue()[k:]
            rec.check(norm(got) == norm(want), 'gdoc-text', want, 'gprint-text', lambda: 'gprint(%s) prints %r, expected %r' % (x, got, want))
        for d in range(rng.choice([1, 2, 3])):
            gFormat(**setting(rng))
            k = outer.tell()
            want = []
            for _ in range(rng.randint(1, 9)):
                r = rng.random()
                if r < .85:
                    x = args(True)
                    want.append('\\begin{equation*} ' + gparts(x, True) + '\\end{equation*} ')
                    gprint(*x)
                elif r < .9:
                    Fmt(rng.choice([1, 2, 3]))
                elif r < .94:
                    gFormat(**setting(rng))
                else:
                    gshort_function()
                    want.append(None)
            Fmt(1)
            rec.check(outer.tell() == k and sys.stdout is outer, 'gdoc-text', str(want), 'gprint-leak', lambda: 'gprint shows text on standard output in LaTeX mode')
            paper, pt, cls = rng.choice([(14, 11), 'letter', 'landscape']), rng.choice(['10pt', '12pt']), rng.choice(['book', 'report'])
            fn = os.path.join(scratch, 'g%d.tex' % d)
            res = gxpdf(fn, paper=paper, pt=pt, documentclass=cls, pdfprog=None, rm=rng.random() < .5, evince=rng.random() < .5)
            ls = sorted(os.listdir(scratch))
            rec.check(res is None and ls == ['g%d.tex' % d], 'file', str(ls), 'file', lambda: 'gxpdf leaves the files %s' % ls)
            with open(fn) as f:
                D = f.read()
            os.remove(fn)
            sp = split_doc(D)
            if not rec.check(sp is not None, 'gdoc-head', 'one', 'gdoc-frame', lambda: 'not one document: %r' % D[-300:]):
                continue
            rec.check(head_ok(sp[0], paper, pt, cls), 'gdoc-head', '%s %s %s' % (paper, pt, cls), 'gdoc-head', lambda: 'head is %r' % sp[0][:200])
            body = norm('\n'.join(sp[1]))
            pos = 0
            for w in want:
                if w is None:
                    m = re.compile(r'\\begin\{lstlisting\}.*?\\end\{lstlisting\}(\\text\{Code Output:\})?').match(body, pos)
                    good = m and all(norm(l) in m.group() for l in GSRC)
                    pos2 = m.end() if m else pos
                else:
                    w = norm(w)
                    good = body.startswith(w, pos)
                    pos2 = pos + len(w)
                if not rec.check(bool(good), 'gdoc', str(w), 'gdoc', lambda: 'gxpdf document has %r where %r was printed' % (body[pos:pos + 200], w)):
                    break
                pos = pos2
                while body[pos:pos + 1] == ' ':
                    pos += 1
            else:
                rec.check(pos == len(body), 'gdoc', 'end', 'gdoc-extra', lambda: 'extra text in document %d: %r' % (d + 1, body[pos:pos + 200]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ settings affect only how objects are shown

COLORS = [None, 'red', 'blue', 'green', 'cyan']


def display(spec, rec, rng):
    from galgebra.printer import Eprint, Fmt, Format, GaLatexPrinter, GaPrinter, enhance_print, latex, oprint, print_latex, tex
    from galgebra.gprinter import gFormat, gprint
    a, ga = algebra(rng, spec)
    while ga.n < 2:
        a, ga = algebra(rng, spec)
    w = monitor.World(rec, num.Env(spec['seed']))
    w.register(ga, gen.metric_of(a))
    names = [x for x in c22.LIGHT if x not in ('text', 'names')]
    plan = [(rng.choice(names), rng.random()) for _ in range(5)]
    base = {p: c22.do(p[0], p[1], ga, w) for p in plan}
    objs = [o for o in things(rng, ga) if hasattr(o, 'Fmt')]
    outer = io.StringIO()
    sys.stdout = outer
    gp = lambda o: GaPrinter().doprint(o)
    texts = [(gp(o), str(o), repr(o)) for o in objs]
    trail = []
    for step in range(rng.randint(2, 5)):
        k = rng.randrange(8)
        if k <= 1:
            c = [rng.choice(COLORS) for _ in range(3)]
            (enhance_print if k else Eprint)(*c)
            trail.append('enhance_print%s' % (tuple(c),))
        elif k == 2:
            Fmt(rng.choice([1, 2, 3]))
            trail.append('Fmt')
        elif k == 3:
            Format(**setting(rng))
            trail.append('Format')
            print(objs[0])
        elif k == 4:
            if 'Format' in trail:
                tex()
                trail = [t for t in trail if t != 'Format'] + ['tex']
        elif k == 5:
            o = rng.choice(objs)
            b4 = gp(o), str(o), latex(o)
            f = o.Fmt(rng.choice([1, 2, 3]), rng.choice([None, 'Q']))
            str(f), latex(f), gp(f)
            print(f)
            rec.check((gp(o), str(o), latex(o)) == b4, 'local-fmt', b4[1], 'local-fmt', lambda: 'Fmt of an object changes how it is shown afterwards: %s, before %s' % (gp(o), b4[0]))
        elif k == 6:
            o = rng.choice(objs)
            b4 = latex(o)
            latex(o, omit_function_args=True, omit_partial_derivative_fraction=True), latex(o, mode='equation*'), print_latex(o)
            rec.check(latex(o) == b4, 'local-fmt', b4, 'latex-settings', lambda: 'settings of one latex() call stay in force')
        else:
            gFormat(**setting(rng))
            gprint('x', rng.choice(objs))
            oprint('v', objs[0], 'w', [1, 2])
            trail.append('gFormat')
        p = rng.choice(plan)
        got = c22.do(p[0], p[1], ga, w)
        rec.check(c22.same(got, base[p]), 'values', '%s %s' % (p[0], trail), 'values:' + p[0], lambda: '%s gives %s after %s, %s before, in %s' % (p[0], str(got)[:300], trail, str(base[p])[:300], a))
    if 'Format' in trail:
        tex()
    enhance_print(None, None, None)
    Fmt(1)
    for p in plan:
        got = c22.do(p[0], p[1], ga, w)
        rec.check(c22.same(got, base[p]), 'values', '%s at the end %s' % (p[0], trail), 'values:' + p[0], lambda: '%s gives %s after %s, %s before, in %s' % (p[0], str(got)[:300], trail, str(base[p])[:300], a))
    rec.check(sys.stdout is outer, 'stdout', 'display', 'stdout', lambda: 'standard output is not restored')
    for o, t in zip(objs, texts):
        now = gp(o), str(o), repr(o)
        rec.check(now == t, 'text-back', t[0], 'text-back', lambda: 'with settings put back an object prints as %s, before %s' % (now, t))
