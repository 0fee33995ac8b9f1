"""C05: a combined checker is the logical or of its two parts."""
from props.checkers_common import run as run_checkers


def run(c):
    run_checkers(c, ['combget', 'combset'], {'check': 6, 'permid': 1, 'access': 2, 'canaccess': 1, 'canwrite': 1},
                 c.n(250, 4000), 60, comb=True, users=True, ops={'check', 'midcheck'})
    c.assumptions += [
        'errors other than the two refusals are represented by one exception class and by policy errors']
