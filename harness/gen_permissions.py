"""Random histories for spec/Permissions.tla."""

NAMES = ['zope.Public', 'zope.Public', 'zope.View', 'zope.ManageSite', 'a', 'B', 'b.b', 'a.A', 'a.', 'aa', 'Z.z', '0', 'zope',
         'Zope.Public', 'zope.public', 'zope.Public2', 'zope.Publi', 'a b', '\\u0436.x', '\\xe9', '\\U0001f600', '\\uffff', '~', '_x', 'http://x.y/z',
         'Public', 'CheckerPublic', 'ab', 'a-b', 'a_b']
URIS = ['zope.Public', 'b.b', 'a.A', 'http://x.y/z', 'zope.View', 'zope.x']


def cps(s):
    return [ord(c) for c in (s.encode('ascii').decode('unicode_escape') if '\\' in s else s)]


def history(rng, length):
    ids = rng.sample(NAMES, rng.choice((1, 3, 6, 12)))
    if rng.random() < .7 and 'zope.Public' not in ids:
        ids.append('zope.Public')
    std = ['zope.Public', 'zope.View', 'zope.Security', 'zope.ManageContent', 'zope.ManageServices', 'zope.ManageSite']
    ep = [{'op': 'id', 'id': i, 'cps': cps(i)} for i in sorted(set(ids) | set(URIS) | set(std))]
    perms = []
    for k in range(rng.choice((2, 5, 9))):
        perms.append('p%d' % k)
        how = rng.choice(('plain', 'plain', 'own', 'falsy', 'empty', 'special'))
        ep.append({'op': 'perm', 'p': 'p%d' % k, 'id': rng.choice(NAMES), 'title': rng.choice(('', 'T', 'A')),
                   'desc': rng.choice(('', '', 'D')), 'how': how})
    ctxs = ['']
    for k in range(rng.choice((0, 1, 2, 3))):
        ep.append({'op': 'ctx', 'c': 'L%d' % k, 'up': rng.choice(ctxs)})
        ctxs.append('L%d' % k)
    if rng.random() < .5:
        # an object for each id
        ep += [{'op': 'perm', 'p': 'o' + i, 'id': i, 'title': i, 'desc': '', 'how': 'plain'} for i in ids]
        own = True
    else:
        own = False
    for _ in range(length):
        c = rng.choice(ctxs)
        q = rng.choice(ctxs + ['NONE'])
        i = rng.choice(ids)
        r = rng.random()
        if r < .3:
            ep.append({'op': 'reg', 'c': c, 'id': i, 'p': 'o' + i if own and rng.random() < .9 else rng.choice(perms)})
        elif r < .4:
            ep.append({'op': 'unreg', 'c': c, 'id': i})
        elif r < .45:
            ep.append({'op': 'site', 'c': c})
        elif r < .47:
            ep.append({'op': 'zcml', 'id': rng.choice(URIS), 'title': 'T', 'desc': rng.choice(('', 'D'))})
        elif r < .49:
            ep.append({'op': 'public'})
        elif r < .50:
            ep.append({'op': 'std'})
        elif r < .65:
            ep.append({'op': 'check', 'c': q, 'id': i})
        elif r < .68:
            ep.append({'op': 'checkpublic', 'c': q})
        elif r < .78:
            ep.append({'op': 'list', 'c': q})
        elif r < .94:
            ep.append({'op': rng.choice(('vocab', 'idvocab')), 'c': q, 'util': rng.random() < .2})
        else:
            ep.append({'op': 'read', 'c': q, 'id': i})
    return ep
