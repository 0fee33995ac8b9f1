"""Random histories for spec/Checkers.tla: many tables, checkers and objects,
unusual names and permissions, tables edited while in use."""
from drvlib import enc_name

AVAILABLE = ['__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__', '__hash__', '__bool__',
             '__class__', '__providedBy__', '__implements__', '__repr__', '__conform__',
             '__name__', '__parent__']
NEAR = ['__str__', '__nonzero__', '__cmp__', '__len__', '__call__', '__getitem__', '__setattr__',
        '__dict__', '__slots__', '__init__', '__bases__', '__mro__', '__module__', '__qualname__',
        '__provides__', '__provided__', '__implemented__', '__providedby__', '__Class__', '_class_', '__class', 'class__',
        '__class__ ', ' __class__', '__CLASS__', '__eq', '__eq___', '___eq__', '__names__',
        '__nam__', '__name', '__hash', '__reprs__', '__confor__', '__parents__', '__paren__',
        '__lt_', '__leq__', '__next__', 'next', '__reduce__', '__reduce_ex__', '__getattr__',
        '__getattribute__', '__delattr__', '__doc__', '__annotations__', '__Security_checker__',
        '__conform', '__implement__', '__implementss__', '__bool', '__boolean__']
PLAIN = ['a', 'b', 'foo', 'Foo', 'foo_', '_foo', 'x1', 'title', 'keys', 'get']
ODD = ['', ' ', 'a b', '0', 'a.b', '\x00', 'a\x00b', '\n', '\xe9', '\u0436', '\U0001f600', '\udc80',
       'n' * 300, '__' + 'y' * 200 + '__', '__', '____', '_', '\\x41', "'", '"', 'PUBLIC_', 'None']
PERMS = ['p', 'q', 'r', 'zope.Public', 'zope.View', 'zope.ManageContent', '', ' ', 'P', 'p ', '\xe9t\xe9', '\udc80', 'CheckerPublic',
         'x' * 200, 'None', 'a.b.c', '0', '%false', '%equal', '%str', '%zero', '%no', '%dict', '%object', '%empty', '%int']
ALL = AVAILABLE + NEAR + PLAIN + ODD + ['__iter__']


def pick_name(rng, pool):
    r = rng.random()
    if r < 0.55:
        return rng.choice(pool)
    if r < 0.7:
        return rng.choice(AVAILABLE)
    if r < 0.8:
        return rng.choice(NEAR)
    if r < 0.85:
        return rng.choice(['__iter__', '__getitem__'])
    return rng.choice(ALL)


def table(rng, pool, perms):
    m = {}
    for _ in range(rng.choice((0, 0, 1, 2, 4, 8))):
        m[enc_name(pick_name(rng, pool))] = rng.choice(perms)
    return m


def policy(rng, perms):
    real = [p for p in perms if p not in ('PUBLIC', 'NONE')]
    r = rng.random()
    if r < 0.12:
        return {'op': 'policy', 'kind': 'none', 'grant': [], 'fail': []}
    grant = [p for p in real if rng.random() < 0.5]
    fail = [p for p in real if rng.random() < 0.1] if rng.random() < 0.3 else []
    return {'op': 'policy', 'kind': 'table', 'grant': grant, 'fail': fail}


def history(rng, calls, length, comb=False, users=False, mid=True):
    """calls: weights of check/permid/canaccess/canwrite/access."""
    pool = rng.sample(ALL, 6) + rng.sample(PLAIN, 3)
    perms = [enc_name(p) for p in rng.sample(PERMS, 4)] + ['PUBLIC', 'NONE']
    ep = []
    tabs = ['t%d' % i for i in range(rng.choice((2, 3, 4)))]
    for t in tabs:
        ep.append({'op': 'table', 'id': t, 'map': table(rng, pool, perms)})
    cks, first = [], []
    for i in range(rng.choice((1, 2, 3))):
        c = 'c%d' % i
        ep.append({'op': 'std', 'id': c, 'get': rng.choice(tabs),
                   'set': '' if rng.random() < 0.2 else rng.choice(tabs),
                   'how': rng.choice(('', '', 'eq', 'falsy', 'sub'))})
        if ep[-1]['set'] == '':
            tabs.append(c + '.set')
        cks.append(c)
        first.append(c)
    if users:
        for i in range(rng.choice((1, 2, 3))):
            c = 'u%d' % i
            how = rng.choice(('', 'foreign'))
            ep.append({'op': 'user', 'id': c, 'how': how,
                       'rget': rng.choice(('ok', 'unauth', 'forbid', 'boom')),
                       'rset': rng.choice(('ok', 'unauth', 'forbid', 'boom'))})
            cks.append(c)
            first.append(c)
    if comb:
        for i in range(rng.choice((1, 2, 3, 4))):
            c = 'k%d' % i
            ep.append({'op': 'comb', 'id': c, 'a': rng.choice(first), 'b': rng.choice(cks)})
            cks.append(c)
            first.append(c)
    if users:
        # checks reads and operations differently; not part of combinations
        ep.append({'op': 'user', 'id': 'ux', 'how': 'foreign', 'rget': rng.choice(('ok', 'unauth', 'forbid')),
                   'rset': rng.choice(('ok', 'unauth', 'forbid')), 'rop': rng.choice(('ok', 'unauth', 'forbid'))})
        cks.append('ux')
    objs = []
    for i in range(rng.choice((1, 2, 3))):
        o = 'o%d' % i
        # objects without a checker of their own are given one explicitly
        ep.append({'op': 'object', 'id': o, 'iter': rng.random() < .4, 'item': rng.random() < .4,
                   'checker': rng.choice([c for c in cks])})
        objs.append(o)
    ep.append(policy(rng, perms))
    kinds = [k for k, w in calls.items() for _ in range(w)]
    subjects = [c for c in cks if c[0] == 'k'] * 3 + cks if comb else cks
    names = [enc_name(n) for n in pool]
    for _ in range(length):
        r = rng.random()
        if r < 0.08:
            ep.append(policy(rng, perms))
        elif r < 0.2:
            n = enc_name(pick_name(rng, pool))
            if rng.random() < .7:
                ep.append({'op': 'entry', 'id': rng.choice(tabs), 'name': n, 'perm': rng.choice(perms)})
            else:
                ep.append({'op': 'noentry', 'id': rng.choice(tabs), 'name': n})
        else:
            k = rng.choice(kinds)
            n = enc_name(pick_name(rng, pool))
            if k == 'check' and mid and rng.random() < .25:
                c = rng.choice(subjects)
                t = rng.choice(tabs)
                ep.append({'op': 'midcheck', 'c': c, 'o': rng.choice(objs), 'name': n,
                           'kind': rng.choice(('check', 'getattr', 'setattr')),
                           'edit': {'id': t, 'name': n if rng.random() < .7 else enc_name(pick_name(rng, pool)),
                                    'perm': '' if rng.random() < .4 else rng.choice(perms)}})
            elif k == 'check':
                ep.append({'op': 'check', 'c': rng.choice(subjects), 'o': rng.choice(objs), 'name': n,
                           'kind': rng.choice(('check', 'getattr', 'setattr'))})
            elif k == 'permid':
                ep.append({'op': 'permid', 'c': rng.choice(subjects), 'name': n,
                           'kind': rng.choice(('get', 'set'))})
            elif k == 'access':
                # names that the object's own machinery gives a meaning are
                # dealt with elsewhere
                if n.startswith('__') and n.endswith('__'):
                    n = enc_name(rng.choice(PLAIN))
                ep.append({'op': 'access', 'o': rng.choice(objs), 'name': n,
                           'kind': rng.choice(('get', 'set', 'del'))})
                if rng.random() < .3:
                    ep[-1]['c'] = rng.choice(cks)
            else:
                ep.append({'op': k, 'o': rng.choice(objs), 'name': n,
                           'form': rng.choice(('bare', 'proxied'))})
                if rng.random() < .3:
                    ep[-1].update(c=rng.choice(cks), form='proxied')
    return ep
