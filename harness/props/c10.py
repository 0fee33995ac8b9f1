"""C10: protection declarations for a class change only what they name."""
import gen_declarations
import vlib

DRV, SPEC = 'drv_declarations.py', 'TrDeclarations'


def run(c):
    eps = []
    for mc in c.mcs('MCDeclarations', ['MCDeclarations.%s.cfg' % part for part in ('get', 'set')], emit=True):
        eps += vlib.tour(mc, 'c', c.rng)
    c.conform(DRV, SPEC, eps, src='tour')
    hist = [gen_declarations.history(c.rng, 60) for _ in range(c.n(600, 10000))]
    c.conform(DRV, SPEC, hist, configs=('c', 'py', 'c-watch', 'py-watch'), src='random')
    c.assumptions += ['declarations are made for classes that have no checker or a name-based one with tables']
