"""C20 LaTeX output denotes the printed object."""
from . import c19

PROP = 'C20'
RULE = c19.RULE.replace('evaluates the text', 'evaluates the LaTeX')
ASSUMPTIONS = ['functions are printed without arguments, so objects mentioning one function name with two argument lists are not generated']
CASE_TIMEOUT = {'quick': 20, 'thorough': 120}
REQUIRED = [r for r in c19.REQUIRED if r not in ('print', 'color')] + ['repr-latex']


def cases(tier, seed):
    return c19.cases(tier, seed)


def run(spec, rec):
    c19.run(spec, rec, mode='latex')
