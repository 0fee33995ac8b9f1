"""C12: at most one interaction per thread, visible only to that thread."""
import gen_interactions
import vlib

DRV, SPEC = 'drv_interactions.py', 'TrInteractions'


def explore(c, parts, kinds, n, configs=('c', 'py')):
    eps = []
    for mc in c.mcs('MCInteractions', ['MCInteractions.%s.cfg' % part for part in parts], emit=True):
        eps += vlib.tour(mc, 'c', c.rng)
    c.conform(DRV, SPEC, eps, configs=configs, src='tour')
    hist = [gen_interactions.history(c.rng, 60, c.rng.choice(kinds)) for _ in range(n)]
    c.conform(DRV, SPEC, hist, src='random')


def run(c):
    explore(c, ('threads', 'slow'), ('threads', 'waits', ''), c.n(600, 10000))
