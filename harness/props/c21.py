"""C21: watching checks reports decisions without changing them."""
import gen_proxying
import gen_registry
import gen_stdtypes
import gen_watching
import vlib
from props.proxying_common import PROBES

DRV, SPEC = 'drv_watching.py', 'TrWatching'
WATCH = ('c-watch', 'py-watch', 'c-watch2', 'py-watch2')
ALL = ('c', 'py') + WATCH + ('c-watch3', 'py-watchyes')


def run(c):
    mc = c.mc('MCWatching', 'MCWatching.cfg', emit=True)
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng), configs=ALL[:6], src='tour')
    hist = [gen_watching.history(c.rng, 60, comb=c.rng.random() < .6) for _ in range(c.n(250, 4000))]
    c.conform(DRV, SPEC, hist, configs=ALL, src='random')
    # the same decisions as without, wherever checkers are used
    ops = {'bin': 4, 'inplace': 2, 'pow3': 1, 'cmp': 2, 'un': 3, 'item': 6, 'attr': 4, 'free': 1, 'make': 1}
    hist = [gen_proxying.history(c.rng, 60, ops, PROBES, True) for _ in range(c.n(100, 2000))]
    c.conform('drv_proxying.py', 'TrProxying', hist, configs=WATCH, src='random')
    hist = [gen_registry.history(c.rng, 60) for _ in range(c.n(100, 2000))]
    c.conform('drv_registry.py', 'TrRegistry', hist, configs=WATCH, src='random')
    hist = [gen_stdtypes.history(c.rng, 60) for _ in range(c.n(60, 1500))]
    c.conform('drv_stdtypes.py', 'TrStdTypes', hist, configs=WATCH, src='random')
    c.assumptions += ['reports are told apart by kind, name and object; their wording beyond that is not judged',
                      'checkers supplied by others report what they please']
