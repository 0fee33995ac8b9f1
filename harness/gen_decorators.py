"""Random histories for spec/Decorators.tla."""
from gen_checkers import policy

NAMES = ['a', 'b', 'c', 'd', 'title']


def history(rng, length):
    ep = []
    perms = ['p', 'q', 'zope.View', 'PUBLIC', 'NONE']
    tabs, cks, users = [], ['DEFAULT'], []
    std = ['DEFAULT']       # those that let everybody ask for the class
    for k in range(rng.choice((2, 3, 4))):
        tabs.append('t%d' % k)
        ep.append({'op': 'table', 'id': tabs[-1],
                   'map': {n: rng.choice(perms) for n in NAMES + ['__len__', '__call__'] if rng.random() < .4}})
    for k in range(rng.choice((1, 2, 4))):
        cks.append('k%d' % k)
        if len(cks) > 2 and rng.random() < .2:
            a, b = rng.choice(cks[:-1]), rng.choice(cks[:-1])
            ep.append({'op': 'comb', 'id': cks[-1], 'a': a, 'b': b})
            if a in std and b in std:
                std.append(cks[-1])
        elif rng.random() < .2:
            ep.append({'op': 'user', 'id': cks[-1], 'rget': rng.choice(('ok', 'unauth', 'forbid', 'boom')),
                       'rset': rng.choice(('ok', 'unauth', 'forbid')), 'how': 'sub'})
        else:
            std.append(cks[-1])
            ep.append({'op': 'std', 'id': cks[-1], 'get': rng.choice(tabs), 'set': rng.choice(tabs),
                       'how': rng.choice(('', '', 'eq', 'falsy', 'sub'))})
    if rng.random() < .3:
        users.append('f')
        ep.append({'op': 'user', 'id': 'f', 'rget': rng.choice(('ok', 'unauth', 'forbid')), 'rset': 'ok', 'how': 'foreign'})
    nodes, secs, decs = [], [], []

    def entry():
        return rng.choice(['', '', 'NOPROXY'] + cks[1:])

    def node():
        i = 'n%d' % len(nodes)
        r = rng.random()
        if r < .25 or not nodes:
            own = rng.choice(['', '', '', 'NONE'] + (['boom'] if rng.random() < .2 else []) + cks + users)
            ep.append({'op': 'obj', 'id': i, 'own': own, 'entry': entry()})
        elif r < .45:
            of = rng.choice(nodes)
            if of in secs:
                of = rng.choice([n for n in nodes if n not in secs])
            ep.append({'op': 'sec', 'id': i, 'of': of, 'c': rng.choice(std)})
            secs.append(i)
        elif r < .6:
            ep.append({'op': 'loc', 'id': i, 'of': rng.choice(nodes)})
            decs.append(i)
        else:
            ep.append({'op': 'dec', 'id': i, 'of': rng.choice(nodes), 'entry': entry(),
                       'attrs': [n for n in NAMES if rng.random() < .2],
                       'how': rng.choice(('base', 'base', 'security', 'sub', 'own'))})
            decs.append(i)
        nodes.append(i)
    for _ in range(4):
        node()
    if rng.random() < .4:
        ep.append({'op': 'defloc', 'entry': entry()})
    ep.append(policy(rng, perms))
    for _ in range(length):
        r = rng.random()
        n = rng.choice(nodes[-6:] if rng.random() < .6 else nodes)
        if r < .15:
            node()
        elif r < .2:
            ep.append(policy(rng, perms))
        elif r < .23:
            ep.append({'op': 'entry', 'id': rng.choice(tabs), 'name': rng.choice(NAMES), 'perm': rng.choice(perms)})
        elif r < .25:
            ep.append({'op': 'defloc', 'entry': entry()})
        elif r < .3:
            if decs:
                ep.append({'op': rng.choice(('assign', 'ofclass')), 'n': rng.choice(decs), 'how': 'set'})
        elif r < .45:
            if n not in secs:
                ep.append({'op': 'attr', 'n': n})
        elif r < .75:
            ep.append({'op': 'dcheck', 'n': n, 'kind': rng.choice(('get', 'op', 'set')),
                       'name': rng.choice(NAMES + ['__len__', '__call__', '__hash__', '__name__'])})
        else:
            ep.append({'op': 'daccess', 'n': n, 'kind': rng.choice(('get', 'get', 'set')), 'name': rng.choice(NAMES)})
    return ep
