"""C20: a decorator adds protection declarations to those of what it decorates."""
import gen_decorators
import vlib

DRV, SPEC = 'drv_decorators.py', 'TrDecorators'


def run(c):
    mc = c.mc('MCDecorators', 'MCDecorators.cfg', emit=True)
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng), src='tour')
    hist = [gen_decorators.history(c.rng, 50) for _ in range(c.n(600, 10000))]
    c.conform(DRV, SPEC, hist, src='random')
