"""Random histories for spec/Interactions.tla."""

PERMS = ['x', 'g', 'h', 'zope.Public', 'PUBLIC', 'NONE', 'zope.ManageContent', '\\u0436', '', '%false', '%equal',
         '%str', '%zero', '%no', '%dict', '%object']
PRINS = ['u', 'v', 'system', 'system', 'eqsys', 'falsy', 'none', 'system2']
HOWS = ['stub', 'stub', 'own', 'eq', 'slots', 'falsy']
EXITS = ['normal', 'ValueError', 'KeyboardInterrupt', 'StopIteration', 'GeneratorExit', 'RuntimeError']


def history(rng, length, kind=''):
    """kind: '' anything, threads, parts, policy, testing, waits"""
    ep = []
    ts = ['t0', 't1', 't2', 't3'][:rng.choice((1, 2, 3, 4) if kind != 'waits' else (3, 4))]
    ps = []
    for k in range(rng.choice((1, 2, 3, 5))):
        p = 'p%d' % k
        ep.append({'op': 'part', 'id': p, 'prin': rng.choice(PRINS), 'how': rng.choice(HOWS)})
        ps.append(p)
    perms = rng.sample(PERMS, 4)
    ep.append({'op': 'grant', 'perms': [p for p in perms if rng.random() < .5]})
    pols = ['paranoid', 'paranoid', 'eqsub', 'permissive', 'table', 'tablef', 'failing']
    if rng.random() < .6:
        ep.append({'op': 'setpol', 't': rng.choice(ts), 'pol': rng.choice(pols)})
    n, inters, busy, cms, ncm = 0, [], {}, {}, 0
    weights = {'threads': (8, 1, 1, 1), 'parts': (3, 8, 1, 1), 'policy': (3, 2, 8, 1), 'testing': (3, 1, 2, 8),
               'waits': (6, 1, 3, 0)}.get(kind, (4, 4, 4, 3))
    for _ in range(length):
        idle = [t for t in ts if t not in busy]
        fam = rng.choices(('inter', 'part', 'pol', 'test'), weights)[0]
        if kind == 'waits' and busy and rng.random() < .25:
            t = rng.choice(sorted(busy))
            ep.append({'op': busy.pop(t), 't': t})
            continue
        if not idle:
            t = rng.choice(sorted(busy))
            ep.append({'op': busy.pop(t), 't': t})
            continue
        t = rng.choice(idle)

        def fresh():
            nonlocal n
            n += 1
            inters.append('i%d' % n)
            return 'i%d' % n
        if fam == 'inter':
            r = rng.random()
            if r < .3:
                ep.append({'op': 'new', 't': t, 'id': fresh(),
                           'parts': [rng.choice(ps) for _ in range(rng.choice((0, 0, 1, 1, 2, 3)))]})
            elif r < .5:
                ep.append({'op': 'end', 't': t})
            elif r < .65:
                ep.append({'op': 'restore', 't': t})
            elif r < .9:
                ep.append({'op': rng.choice(('query', 'get')), 't': t})
            elif r < .93:
                ep.append({'op': 'cleanup', 't': t})
            elif r < .94:
                ep.append({'op': 'dies', 't': t})
            elif kind == 'waits' and r < .975:
                if rng.random() < .8:
                    ep.append({'op': 'setpol', 't': rng.choice(idle), 'pol': rng.choice(('table', 'tablef'))})
                    ep.append({'op': 'end', 't': t})
                    ep.append({'op': 'new', 't': t, 'id': fresh(), 'parts': []})
                perm = rng.choice([p for p in perms if p != 'NONE'])
                ep.append({'op': 'probestart', 't': t, 'perm': perm})
                busy[t] = 'probefinish'
            elif kind == 'waits':
                ep.append({'op': 'setpol', 't': rng.choice(idle), 'pol': 'slow'})
                ep.append({'op': 'new' if rng.random() < .2 else 'end', 't': t, 'id': fresh(), 'parts': []})
                ep.append({'op': 'newstart', 't': t, 'id': fresh(),
                           'parts': [rng.choice(ps) for _ in range(rng.randrange(3))], 'guess': ''})
                busy[t] = 'newfinish'
        elif fam == 'part' and inters:
            op = rng.choice(('add', 'remove', 'list', 'of', 'of'))
            i, p = rng.choice(inters[-4:]), rng.choice(ps)
            ep.append({'list': {'op': op, 'i': i}, 'of': {'op': op, 'p': p}}.get(op) or {'op': op, 'i': i, 'p': p})
        elif fam == 'pol':
            op = rng.choice(('setpol', 'getpol', 'check', 'check', 'icheck', 'probe', 'probe', 'setprin', 'grant'))
            perm = rng.choice(perms)
            if op == 'setpol':
                ep.append({'op': op, 't': t, 'pol': rng.choice(pols)})
            elif op == 'getpol':
                ep.append({'op': op, 't': t})
            elif op == 'check':
                ep.append({'op': op, 't': t, 'perm': perm, 'i': rng.choice([''] + inters[-3:])})
            elif op == 'icheck' and inters:
                ep.append({'op': op, 'perm': perm, 'i': rng.choice(inters[-3:])})
            elif op == 'probe' and perm != 'NONE':
                ep.append({'op': op, 't': t, 'perm': perm})
            elif op == 'setprin':
                ep.append({'op': op, 'id': rng.choice(ps), 'prin': rng.choice(PRINS)})
            elif op == 'grant':
                ep.append({'op': 'grant', 'perms': [p for p in perms if rng.random() < .5]})
        elif fam == 'test':
            r = rng.random()
            if r < .35:
                i = fresh()
                ep.append({'op': 'create', 't': t, 'id': i, 'p': 'r' + i, 'prin': rng.choice(('u', 'bob', 'system'[:3]))})
                ps.append('r' + i)
                ep.append({'op': 'list', 'i': i})
            elif r < .65:
                i = fresh()
                ncm += 1
                ep.append({'op': 'enter', 't': t, 'id': i, 'p': 'r' + i, 'prin': rng.choice(('u', 'bob')), 'cm': 'm%d' % ncm})
                cms['m%d' % ncm] = t
                ps.append('r' + i)
            elif cms:
                c = rng.choice(sorted(cms))
                if cms[c] in idle:
                    ep.append({'op': 'exit', 't': cms.pop(c), 'cm': c, 'how': rng.choice(EXITS)})
    return ep


def stubs(rng, length):
    T = ['', 'a', 'Title', '\\u0436', 'a b']
    return [{'op': 'initpol'}] + [
        {'op': 'stub', 'id': rng.choice(['bob', 'x', '\\u0436', '0', 'zope.anybody']), 'title': rng.choice(T),
         'desc': rng.choice(T), 'give': rng.choice(['', '1']),
         'groups': rng.choice([[], [], ['empty'], ['g'], ['g,h']]), 'via': rng.choice(['', 'create', 'cm'])}
        for _ in range(length)]
