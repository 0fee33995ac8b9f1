"""C06: canAccess and canWrite predict what the proxied object allows."""
from props.checkers_common import run as run_checkers


def run(c):
    cfgs = ['stdA', 'stdB', 'combget', 'combset'] + (['stdC'] if c.thorough() else [])
    run_checkers(c, cfgs, {'canaccess': 5, 'canwrite': 5, 'access': 4, 'check': 1},
                 c.n(250, 4000), 60, comb=True, users=True, ops={'canaccess', 'canwrite'})
    c.assumptions += ['objects have a checker of their own or of their type']
