"""Random histories for spec/Configuration.tla."""

NAMES = ['x', 'y', 'z', 'foo', '_x', 'ab', '__name__', '__call__', 'w']
PERMS = ['a.a', 'b.b', 'c.c', 'zope.Public', 'zope.View', 'http://x.y/z', 'a.A', 'zope.public', 'zope.Publi']
BAD = ['nodots', 'a b.c', 'p..q', '1.2']


def ifaces(rng, ep):
    out, names = {}, {}
    ids = []
    for k in range(rng.randrange(1, 6)):
        i = 'I%d' % k
        bases = []
        free = rng.sample(ids, len(ids))
        for b in free[:rng.randrange(3)]:
            # trees only: no common ancestors, and no inherited name twice
            if not any(out[b] & out[c] or names[b] & names[c] for c in bases):
                bases.append(b)
        own = rng.sample(NAMES[:6], rng.randrange(4))
        kinds = {n: rng.choice(('names', 'rw', 'rw', 'ro')) for n in own}
        e = {'op': 'iface', 'id': i, 'bases': bases}
        for k2 in ('names', 'rw', 'ro'):
            e[k2] = [n for n in own if kinds[n] == k2]
        ep.append(e)
        out[i] = {i}.union(*[out[b] for b in bases])
        names[i] = set(own).union(*[names[b] for b in bases])
        ids.append(i)
    return ids


class Gen:
    def __init__(self, rng, part):
        self.rng, self.part = rng, part
        self.ep = []
        self.serial = 0
        self.cls = []
        self.bases = {}
        for i in range(rng.choice((2, 3))):
            c = 'C%d' % i
            b = rng.choice([''] + self.cls)
            self.bases[c] = [c] + (self.bases[b] if b else [])
            self.ep.append({'op': 'class', 'id': c, 'base': b})
            self.cls.append(c)
        # classes that implement interfaces are unrelated: zope.interface
        # refuses some orders of declarations for related ones
        self.impl = []
        for c in rng.sample(self.cls, len(self.cls)):
            if not any(c in self.bases[d] or d in self.bases[c] for d in self.impl):
                self.impl.append(c)
        self.ifs = ifaces(rng, self.ep)
        self.perms = rng.sample(PERMS, 3)
        self.names = rng.sample(NAMES, 4)

    def perm(self):
        r = self.rng.random()
        if r < .02:
            return self.rng.choice(BAD)
        if r < .04:
            return ''
        if r < .1:
            return self.rng.choice(PERMS)
        return self.rng.choice(self.perms)

    def some(self, pool, p=.4):
        rng = self.rng
        if rng.random() > p:
            return []
        l = rng.sample(pool, rng.randrange(min(3, len(pool)) + 1))
        if l and rng.random() < .04:
            l.append(rng.choice(l))
        return l

    def classsub(self, c):
        rng = self.rng
        r = rng.random()
        if r < .08 and c in self.impl or c in self.impl and rng.random() < .04:
            return {'s': 'implements', 'ifaces': rng.sample(self.ifs, 1)}
        if r < .15:
            return {'s': 'factory', 'id': rng.choice(['', '', 'f.one', 'f.two', 'nodots'])}
        allow = r < .35
        s = {'s': 'allow' if allow else 'require', 'perm': '' if allow else self.perm(), 'attrs': self.some(self.names, .5),
             'ifaces': self.some(self.ifs, .3), 'setattrs': [] if allow else self.some(self.names),
             'schemas': [] if allow else self.some(self.ifs, .25),
             'like': '' if allow or rng.random() < .8 else rng.choice(self.cls)}
        return s

    def use(self, c, p):
        self.serial += 1
        return {'d': 'class', 'c': c, 'subs': [
            {'s': 'require', 'perm': p, 'attrs': ['n%d' % self.serial], 'ifaces': [], 'setattrs': [], 'schemas': [], 'like': ''}]}

    def modsub(self):
        allow = self.rng.random() < .5
        return {'s': 'allow' if allow else 'require', 'perm': '' if allow else self.perm(),
                'attrs': self.some(self.names, .7), 'ifaces': self.some(self.ifs, .4)}

    def item(self, depth):
        rng = self.rng
        r = rng.random()
        w = {'class': (.1, .15, .75, .8, .85), 'module': (.1, .13, .2, .75, .8), 'perm': (.25, .5, .7, .8, .82)}[self.part]
        if r < w[0]:
            return {'d': 'permission', 'id': rng.choice(PERMS if rng.random() < .97 else BAD)}
        if r < w[1]:
            if self.part == 'perm' and rng.random() < .3:
                # redefinitions of what others redefine to, and a use of each
                a = rng.sample(self.perms, 3)
                c = rng.choice(self.cls)
                l = [{'d': 'redefine', 'from': a[0], 'to': a[1]}, {'d': 'redefine', 'from': a[1], 'to': a[2]}]
                if rng.random() < .5:
                    l.reverse()
                if rng.random() < .3:
                    l.append({'d': 'redefine', 'from': a[2], 'to': a[0]})
                if rng.random() < .3:
                    l[-1] = {'d': rng.choice(('include', 'group')), 'items': [l[-1], self.use(c, a[0])]}
                self.serial += 1
                return {'d': 'group', 'items': l + [self.use(c, p) for p in a]}
            return {'d': 'redefine', 'from': rng.choice(self.perms), 'to': rng.choice(self.perms)}
        if r < w[2]:
            c = rng.choice(self.cls)
            return {'d': 'class', 'c': c,
                    'subs': [self.classsub(c) for _ in range(rng.randrange(1, 3))]}
        if r < w[3]:
            return {'d': 'module', 'm': rng.choice('mo'), 'subs': [self.modsub() for _ in range(rng.randrange(1, 3))]}
        if r < w[4] or depth > 2:
            return {'d': 'policy', 'pol': rng.choice(('paranoid', 'permissive'))}
        return {'d': rng.choice(('include', 'include', 'group')),
                'items': [self.item(depth + 1) for _ in range(rng.randrange(1, 4))]}

    def looks(self, n):
        rng = self.rng
        for _ in range(n):
            r = rng.random()
            name = rng.choice(self.names)
            if self.part == 'module' and r < .6:
                self.ep.append(rng.choice((
                    {'op': 'mprobe', 'm': rng.choice('mo'), 'name': rng.choice(self.names + ['__name__', 'w'])},
                    {'op': 'mprobe', 'm': rng.choice('mo'), 'name': name},
                    {'op': 'mset', 'm': rng.choice('mo'), 'name': name},
                    {'op': 'mdump', 'm': rng.choice('mo')})))
            elif r < .55:
                kind = rng.choice(('get', 'set'))
                if kind == 'set' and name.startswith('__'):
                    name = 'x'
                self.ep.append({'op': 'probe', 'c': rng.choice(self.cls), 'kind': kind, 'name': name})
            elif r < .75:
                self.ep.append({'op': 'dump', 'c': rng.choice(self.cls)})
            elif r < .82:
                self.ep.append({'op': 'implements', 'i': rng.choice(self.ifs), 'up': self.bases[rng.choice(self.cls)]})
            elif r < .88:
                self.ep.append({'op': 'factory', 'id': rng.choice(['f.one', 'f.two', 'class ' + rng.choice(self.cls)])})
            elif r < .94:
                self.ep.append({'op': 'perm', 'id': rng.choice(PERMS)})
            elif r < .97:
                self.ep.append({'op': 'policy'})
            else:
                self.ep.append({'op': 'mdump', 'm': rng.choice('mo')})


def history(rng, part):
    g = Gen(rng, part)
    if rng.random() < .8:
        g.ep.append({'op': 'config', 'items': [{'d': 'permission', 'id': p} for p in rng.sample(PERMS, rng.randrange(3, 8))]})
    for _ in range(rng.randrange(1, 6)):
        g.ep.append({'op': 'config', 'items': [g.item(0) for _ in range(rng.randrange(1, 5))]})
        if rng.random() < .4:
            g.ep.append({'op': 'grant', 'perms': [p for p in PERMS if rng.random() < .5]})
        g.looks(rng.randrange(3, 10))
        if rng.random() < .05:
            g.ep.append({'op': 'cleanup'})
    for c in g.cls:
        g.ep.append({'op': 'dump', 'c': c})
    for m in 'mo':
        g.ep.append({'op': 'mdump', 'm': m})
    return g.ep
