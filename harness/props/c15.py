"""C15: class directives in configuration produce exactly the declared protection."""
import gen_configuration
import vlib

DRV, SPEC = 'drv_configuration.py', 'TrConfiguration'


def explore(c, part, n):
    mc = c.mc('MCConfiguration', 'MCConfiguration.%s.cfg' % part, emit=True)
    eps = vlib.tour(mc, 'c', c.rng)
    c.conform(DRV, SPEC, eps, src='tour')
    hist = [gen_configuration.history(c.rng, part) for _ in range(n)]
    c.conform(DRV, SPEC, hist, src='random')


def run(c):
    explore(c, 'class', c.n(300, 5000))
