"""C07: a security proxy cannot be shed, rebound or doubled."""
from props import proxying_common as pc

SETUP = [
    {'op': 'table', 'id': 'g', 'map': {'_wrapped': 'PUBLIC', '_checker': 'PUBLIC'}},
    {'op': 'table', 'id': 's', 'map': {}},
    {'op': 'std', 'id': 'c', 'get': 'g', 'set': 's'},
    {'op': 'subject', 'id': 'a', 'meths': {}, 'attrs': {}, 'items': [], 'checker': 'c', 'how': 'attr'},
    {'op': 'factory', 'x': 'a', 'c': '', 'res': 'p'}]


def run(c):
    pc.tours(c, ['shed'])
    pc.histories(c, c.n(900, 12000), 60, {'make': 8, 'attr': 5, 'item': 3, 'inplace': 2, 'bin': 1},
                 attacks=pc.ATTACKS + c.rng.sample(pc.LIARS, 16))
    inside = [SETUP + [{'op': 'inside', 'x': 'p', 'slot': s, 'how': h}]
              for s in ('_wrapped', '_checker') for h in ('getattr', 'dot')]
    c.conform(pc.DRV, pc.SPEC, inside, src='inside')
    c.assumptions += ['code that calls the C API or the proxy class\'s own slots directly is trusted']
