"""C14: policies decide only by marker, policy kind and current principals."""
import gen_interactions
from props.c12 import DRV, SPEC, explore


def run(c):
    explore(c, ('policy',), ('policy', 'policy', ''), c.n(800, 10000))
    c.conform(DRV, SPEC, [gen_interactions.stubs(c.rng, 2)], src='initial')
