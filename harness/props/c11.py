"""C11: checker builders grant exactly the names they are given."""
import gen_builders
import vlib

DRV, SPEC = 'drv_builders.py', 'TrBuilders'


def run(c):
    eps = []
    parts = ('one', 'multi') + (('multi3',) if c.thorough() else ())
    for mc in c.mcs('MCBuilders', ['MCBuilders.%s.cfg' % part for part in parts], emit=True):
        eps += vlib.tour(mc, 'c', c.rng)
    c.conform(DRV, SPEC, eps, src='tour')
    hist = [gen_builders.history(c.rng, 60) for _ in range(c.n(400, 10000))]
    c.conform(DRV, SPEC, hist, configs=('c', 'py', 'c-watch', 'py-watch'), src='random')
