"""Random histories for spec/Declarations.tla."""

NAMES = ['x', 'y', 'z', 'foo', 'bar', '_x', 'X', '__class__', '__name__', '__call__', '__getitem__', '__len__',
         '__parent__', '__repr__', 'get_permissions', '\\u0436', 'a b', '_', '__', '', '0', 'x.y', '\\udc80', 'None']
PERMS = ['p', 'q', 'r', 'zope.Public', 'zope.public', 'PUBLIC', 'zope.Public2', 'NONE', 'p.q', '', '%false', '%no', '%object']
# writing these on an instance has effects of its own
NOWRITE = ['__class__', '__repr__', '__call__', '__getitem__', '__len__']


def history(rng, length):
    ep, cls = [], []
    for i in range(rng.choice((2, 3, 4))):
        c = 'C%d' % i
        ep.append({'op': 'class', 'id': c, 'base': rng.choice([''] + cls)})
        cls.append(c)
    cells = []
    for i in range(rng.choice((0, 1, 2))):
        how = rng.choice(('names', 'multi', 'noset', 'both'))
        m = lambda: {n: rng.choice([p for p in PERMS if p not in ('NONE', 'zope.Public')])
                     for n in rng.sample(['x', 'y', 'foo', 'bar'], rng.randrange(3))}
        ep.append({'op': 'cell', 'id': 'k%d' % i, 'how': how, 'get': m(), 'set': m() if how == 'both' else {}})
        cells.append('k%d' % i)
    names = rng.sample(NAMES, 6)
    perms = rng.sample(PERMS, 4) + ['zope.Public']
    for _ in range(length):
        r = rng.random()
        c = rng.choice(cls)
        if r < .3:
            ep.append({'op': 'protect', 'c': c, 'kind': rng.choice(('get', 'set')), 'name': rng.choice(names),
                       'perm': rng.choice(perms)})
        elif r < .4:
            ep.append({'op': 'like', 'c': c, 'other': rng.choice(cls)})
        elif r < .43:
            ep.append({'op': 'undefine', 'c': c})
        elif r < .47 and cells:
            ep.append({'op': 'define', 'c': c, 'cell': rng.choice(cells)})
        elif r < .52:
            ep.append({'op': 'grant', 'perms': [p for p in perms if rng.random() < .5 and p not in ('PUBLIC', 'NONE')]})
        elif r < .65:
            ep.append({'op': 'dump', 'c': c})
        else:
            kind = rng.choice(('get', 'get', 'set'))
            n = rng.choice(names)
            if kind == 'set' and n in NOWRITE:
                n = 'x'
            ep.append({'op': 'probe', 'c': c, 'kind': kind, 'name': n, 'how': rng.choice(('', 'del'))})
    for c in cls:
        ep.append({'op': 'dump', 'c': c})
    return ep
