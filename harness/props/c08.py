"""C08: checker selection follows the registry by exact type."""
import gen_registry
import vlib

CONFIGS = ('c', 'py', 'c-watch', 'py-watch')


def run(c):
    cfgs = ('types', 'mixed')
    for cfg, mc in zip(cfgs, c.mcs('MCRegistry', ['MCRegistry.%s.cfg' % cfg for cfg in cfgs], emit=True)):
        eps = {impl: vlib.tour(mc, impl, c.rng) for impl in ('c', 'py')}
        c.conform('drv_registry.py', 'TrRegistry', lambda impl: eps[impl], src='tour ' + cfg)
    hist = [gen_registry.history(c.rng, 80) for _ in range(c.n(600, 8000))]
    c.conform('drv_registry.py', 'TrRegistry', hist, configs=CONFIGS, src='random')
    c.assumptions += ['functions in the registry yield checkers, further functions, None or the marker, or raise',
                      'classes and modules compare by identity',
                      'the C implementation leaves instances of unregistered exception classes unprotected']
