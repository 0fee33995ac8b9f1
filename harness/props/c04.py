"""C04: a name-based checker decides exactly by its permission tables."""
from props.checkers_common import run as run_checkers


def run(c):
    cfgs = ['stdA', 'stdB'] + (['stdC'] if c.thorough() else [])
    run_checkers(c, cfgs, {'check': 6, 'permid': 1, 'access': 2}, c.n(250, 4000), 60,
                 ops={'check', 'midcheck', 'permid'})
    c.assumptions += [
        'permissions are strings, the public marker or None; names are strings',
        'the model is exhaustive for one checker over two names at a time; larger tables are sampled']
