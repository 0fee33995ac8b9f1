"""Random histories for spec/Builders.tla."""

NAMES = ['x', 'y', 'z', 'foo', '_x', 'X', '__call__', '__getitem__', '__name__', 'get_permissions', '\\u0436',
         'a b', 'self', 'specs', 'data', 'interface']
PERMS = ['p', 'q', 'r', 'zope.Public', 'PUBLIC', 'NONE', 'P', '', '%false', '%object']


def history(rng, length):
    ep = []
    names = rng.sample(NAMES, rng.choice((3, 5, 8)))
    perms = rng.sample(PERMS, 3)
    ifs, bases = [], {}
    for k in range(rng.randrange(1, 5)):
        i = 'I%d' % k
        bs = rng.sample(ifs, rng.randrange(min(2, len(ifs)) + 1))
        bs = [b for b in bs if not any(b in bases[c] for c in bs)]
        bases[i] = set(bs).union(*[bases[b] for b in bs])
        ep.append({'op': 'iface', 'id': i, 'bases': bs, 'names': rng.sample(names, rng.randrange(4))})
        ifs.append(i)

    def pick():
        return [rng.choice(names) for _ in range(rng.randrange(5))]

    def mp():
        return {n: rng.choice(perms) for n in rng.sample(names, rng.randrange(3))}
    ids = ['a', 'b', 'c']
    for _ in range(length):
        r = rng.random()
        i = rng.choice(ids)
        # mostly one permission, so that conflicts do not always arise
        main = rng.choice(perms)
        kwok = {n: p for n, p in mp().items() if n not in ('interface',)}
        if rng.random() < .5:
            kwok = {n: main for n in kwok}
        if r < .12:
            ep.append({'op': 'names', 'id': i, 'names': pick(), 'perm': rng.choice((main, 'DEFAULT')), 'kw': kwok})
        elif r < .24:
            ep.append({'op': 'ifc', 'id': i, 'iface': rng.choice(ifs), 'perm': rng.choice((main, 'DEFAULT')), 'kw': kwok})
        elif r < .4:
            specs = []
            for _ in range(rng.randrange(5)):
                p = main if rng.random() < .7 else rng.choice(perms)
                k = rng.choice(('names', 'iface', 'dict'))
                if k == 'names':
                    specs.append({'kind': k, 'names': pick(), 'perm': p})
                elif k == 'iface':
                    specs.append({'kind': k, 'iface': rng.choice(ifs), 'perm': p})
                else:
                    specs.append({'kind': k, 'map': {n: p for n in mp()}})
            ep.append({'op': 'multi', 'id': i, 'specs': specs})
        elif r < .45:
            ep.append({'op': 'spoil', 'id': i})
        elif r < .5:
            ep.append({'op': 'edit', 'id': i, 'name': rng.choice(names), 'perm': rng.choice(perms)})
        elif r < .53:
            ep.append({'op': 'grant', 'perms': [p for p in perms if rng.random() < .5 and p not in ('PUBLIC', 'NONE')]})
        elif r < .55:
            leaf = [x for x in ifs if not any(x in bases[y] for y in ifs)]
            x = rng.choice(leaf)
            b = rng.choice([[]] + [[y] for y in ifs if y != x and x not in bases[y]])
            bases[x] = set(b).union(*[bases[y] for y in b])
            ep.append({'op': 'rebase', 'id': x, 'bases': b})
        elif r < .75:
            ep.append({'op': 'dump', 'id': i})
        else:
            ep.append({'op': 'probe', 'id': i, 'kind': rng.choice(('get', 'get', 'set')), 'name': rng.choice(names)})
    for i in ids:
        ep.append({'op': 'dump', 'id': i})
    return ep
