"""C23: the testing helpers set up and tear down interactions faithfully."""
import gen_interactions
from props.c12 import DRV, SPEC, explore


def run(c):
    explore(c, ('testing',), ('testing', 'testing', ''), c.n(800, 10000))
    c.conform(DRV, SPEC, [gen_interactions.stubs(c.rng, 50) for _ in range(c.n(20, 100))], src='stubs')
