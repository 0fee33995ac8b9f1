"""C17: configured permission ids are mapped where redefined and must exist."""
from props.c15 import explore


def run(c):
    explore(c, 'perm', c.n(300, 5000))
