"""C01: every operation through a security proxy is authorised by its own name."""
from props import proxying_common as pc


def run(c):
    pc.tours(c, ['bin', 'bin2', 'inplace', 'pow3', 'one', 'attr'])
    pc.histories(c, c.n(900, 12000), 60,
                 {'bin': 5, 'inplace': 3, 'pow3': 1, 'cmp': 1, 'un': 4, 'item': 7, 'attr': 4, 'free': 1})
    c.assumptions += [
        'wrapped objects are Python instances with scripted special methods; results are checked for depth one '
        'exhaustively and for chains by sampled histories',
        'operations outside the specification (matrix product, formatting, context managers, pickling, ...) are '
        'only checked not to reach methods that are not granted and not to yield unprotected objects',
        '__length_hint__ is not guarded by any permission in either implementation']
