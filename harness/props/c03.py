"""C03: identity-like operations are always available, faithful and safe."""
from props import proxying_common as pc


def run(c):
    pc.tours(c, ['free', 'attr'])
    pc.histories(c, c.n(900, 12000), 60, {'cmp': 6, 'attr': 4, 'free': 8, 'make': 1}, probes=False)
    c.assumptions += ['the generic text is recognised by its documented form (class and address)']
