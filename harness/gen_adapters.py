"""Random histories for spec/Adapters.tla."""

HOWS = ['plain', 'plain', 'falsy', 'len0', 'eq']


def reads(rng):
    return [n for n in ('x', 'y') if rng.random() < .5]


def history(rng, length):
    ep, objs, adap, facs = [], [], [], []
    for k in range(rng.choice((1, 2, 4))):
        objs.append('o%d' % k)
        ep.append({'op': 'obj', 'o': objs[-1], 'reads': reads(rng), 'how': rng.choice(HOWS)})
    n = 0

    def more():
        nonlocal n
        n += 1
        a = 'a%d' % n
        adap.append(a)
        r = rng.random()
        if r < .1:
            ep.append({'op': 'adapter', 'a': a, 'loc': False, 'parent': 'none', 'reads': [], 'rock': True,
                       'how': rng.choice(('int', 'str'))})
            return
        loc = r < .65
        o = rng.choice(objs)
        ep.append({'op': 'adapter', 'a': a, 'loc': loc, 'rock': False, 'reads': reads(rng),
                   'parent': rng.choice(('none', 'none', o, 'P:' + o)) if loc else 'none',
                   'how': rng.choice(HOWS + ['class', 'direct', 'location'] if loc else HOWS)})

    def fac():
        f = 'f%d' % len(facs)
        facs.append(f)
        ep.append({'op': 'factory', 'f': f, 'kind': rng.choice(('trusted', 'loctrusted', 'locuntrusted')),
                   'makes': rng.choice(adap + adap + adap + ['ARG', 'boom']), 'name': rng.choice(('F', 'make', '_')),
                   'mod': rng.choice(('m', 'a.b'))})
    for _ in range(3):
        more()
        fac()
    for _ in range(length):
        r = rng.random()
        if r < .15:
            more()
        elif r < .3:
            fac()
        else:
            p = rng.choice((0, .2, .5, 1))
            ep.append({'op': 'call', 'f': rng.choice(facs),
                       'args': [{'o': rng.choice(objs), 'p': rng.random() < p}
                                for _ in range(rng.choice((1, 1, 2, 3, 5)))]})
    return ep
