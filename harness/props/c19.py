"""C19: trusted adapters see bare objects and come back protected."""
import gen_adapters
import vlib

DRV, SPEC = 'drv_adapters.py', 'TrAdapters'


def run(c):
    mc = c.mc('MCAdapters', 'MCAdapters.cfg', emit=True)
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng), src='tour')
    hist = [gen_adapters.history(c.rng, 40) for _ in range(c.n(600, 10000))]
    c.conform(DRV, SPEC, hist, src='random')
    c.assumptions += ['arguments are bare or carry one security proxy',
                      'adapters that factories return are not themselves security-proxied, unless they are an argument']
