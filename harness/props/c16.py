"""C16: module directives protect exactly the declared module names."""
from props.c15 import explore


def run(c):
    explore(c, 'module', c.n(300, 5000))
