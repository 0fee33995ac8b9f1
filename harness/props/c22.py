"""C22: proxies keep exactly their object and checker alive and take part in collection."""
import gen_lifetime
import vlib

DRV, SPEC = 'drv_lifetime.py', 'TrLifetime'


def run(c):
    c.mc('MCLifetime', 'MCLifetime.big.cfg')
    mc = c.mc('MCLifetime', 'MCLifetime.small.cfg', emit=True)
    some = c.n(.1, 1)
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng, keep=lambda e, o: e['op'] == 'drop' or c.rng.random() < some), src='tour')
    hist = [gen_lifetime.history(c.rng, 60) for _ in range(c.n(600, 8000))]
    c.conform(DRV, SPEC, hist, src='random')
    c.conform(DRV, SPEC, gen_lifetime.stress(c.rng, c.n(25, 120)), src='stress')
