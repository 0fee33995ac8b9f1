"""C13: a participation belongs to at most one interaction at a time."""
from props.c12 import explore


def run(c):
    explore(c, ('parts',), ('parts', 'parts', ''), c.n(800, 10000))
