"""C02: nothing reached through a proxy is handed out raw unless it is a rock."""
from props import proxying_common as pc


def run(c):
    pc.tours(c, ['bin', 'inplace', 'pow3', 'one', 'attr', 'free'])
    pc.histories(c, c.n(900, 12000), 80,
                 {'bin': 4, 'inplace': 3, 'pow3': 1, 'cmp': 3, 'un': 3, 'item': 8, 'attr': 4, 'free': 2, 'make': 1})
    c.assumptions += ['values of the built-in types are the subject of C09; here values are rocks and instances']
