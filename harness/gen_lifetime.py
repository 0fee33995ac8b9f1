"""Random histories for spec/Lifetime.tla."""
import re

with open(__file__.replace('gen_lifetime', 'drv_lifetime')) as f:
    _src = f.read()
NAMES = ['a', 'b', 'x', 'y']
MODES = ['public', 'perm', 'unauth', 'forbid', 'error', 'nointer', 'comb', 'combno', 'uok', 'uno', 'uerr']
RETS = ['none', 'notimpl', 'int', 'small', 'str', 'strsub', 'obj', 'fresh', 'proxy', 'self', 'raise', 'float', 'true', 'list', 'iter']


def operations():
    import drv_lifetime

    class Any:
        def __getattr__(self, n):
            return None
    return sorted(drv_lifetime.operations(Any(), Any(), Any()))


def stress(rng, n, per=12):
    """Episodes of repeated operations: every operation in n combinations of
    a way of deciding and a result."""
    jobs = {}
    for what in operations():
        combos = [(m, r) for m in MODES for r in RETS]
        # granted calls with all results, refused ones with any
        pick = [('public', r) for r in RETS] + [(m, rng.choice(RETS)) for m in MODES]
        rng.shuffle(pick)
        pick = pick[:n] + [rng.choice(combos) for _ in range(max(0, n - len(pick)))]
        for k in pick:
            jobs.setdefault(k, []).append(what)
    evs = []
    for (m, r), ws in sorted(jobs.items()):
        for k in range(0, len(ws), per):
            evs.append({'op': 'stress', 'mode': m, 'ret': r, 'what': ws[k:k + per]})
    rng.shuffle(evs)
    return [evs[k:k + 20] for k in range(0, len(evs), 20)]


def history(rng, length):
    ep = []
    n = {}
    ids = {'obj': [], 'table': [], 'chk': [], 'proxy': [], 'exc': []}

    def new(kind, letter):
        n[letter] = n.get(letter, 0) + 1
        i = '%s%d' % (letter, n[letter])
        ids[kind].append(i)
        return i

    def some(kind):
        l = ids[kind]
        # rather one of the latest, which may still be held
        return rng.choice(l[-4:] if rng.random() < .7 else l)

    def obj():
        ep.append({'op': 'obj', 'id': new('obj', 'o'), 'type': 'T%d' % rng.randrange(3)})

    def table():
        g = [x for x in ('a', 'b', '__call__') if rng.random() < .75]
        ep.append({'op': 'table', 'id': new('table', 't'), 'grant': g})

    def std():
        ep.append({'op': 'std', 'get': some('table'), 'set': some('table'), 'id': new('chk', 'c'),
                   'how': rng.choice(('', '', 'sub', 'eq', 'falsy'))})

    def proxy():
        ep.append({'op': 'proxy', 'of': some('obj'), 'c': some('chk'), 'id': new('proxy', 'p')})
    obj(), obj(), table(), std(), proxy()
    for _ in range(length):
        r = rng.random()
        err = 'e%d' % len(ep) if rng.random() < .3 else ''
        res = 'r%d' % len(ep)
        if r < .06:
            obj()
        elif r < .09:
            table()
        elif r < .13:
            std()
        elif r < .15:
            a, b = some('chk'), some('chk')
            ep.append({'op': 'comb', 'a': a, 'b': b, 'id': new('chk', 'k')})
        elif r < .22:
            proxy()
        elif r < .26:
            ep.append({'op': 'factory', 'of': some(rng.choice(('obj', 'obj', 'proxy'))), 'res': res})
            ids['proxy'].append(res)
        elif r < .4:
            ep.append({'op': 'link', 'n': some('obj'), 'slot': rng.choice(NAMES), 'to': some(rng.choice(('obj', 'proxy', 'proxy', 'chk')))})
        elif r < .45:
            ep.append({'op': 'link', 'n': some('table'), 'slot': rng.choice(('x', 'y')), 'to': some('obj')})
        elif r < .48:
            ep.append({'op': 'unlink', 'n': some('obj'), 'slot': rng.choice(NAMES)})
        elif r < .5:
            ep.append({'op': 'unlink', 'n': some('table'), 'slot': rng.choice(('x', 'y'))})
        elif r < .53:
            ep.append({'op': 'define', 'type': 'T%d' % rng.randrange(3), 'c': some('chk')})
        elif r < .55:
            ep.append({'op': 'undefine', 'type': 'T%d' % rng.randrange(3)})
        elif r < .58:
            ep.append({'op': 'inside', 'p': some('proxy'), 'slot': 'object'})
        elif r < .66:
            ep.append({'op': 'read', 'p': some('proxy'), 'name': rng.choice(NAMES), 'res': res, 'err': err})
            ids['proxy'].append(res)
            if err:
                ids['exc'].append(err)
        elif r < .72:
            ep.append({'op': 'write', 'p': some('proxy'), 'name': rng.choice(NAMES), 'err': err,
                       'to': '' if rng.random() < .3 else some(rng.choice(('obj', 'proxy', 'chk')))})
            if err:
                ids['exc'].append(err)
        elif r < .77:
            args = [some(rng.choice(('obj', 'proxy', 'chk'))) for _ in range(rng.randrange(2))]
            ep.append({'op': 'call', 'p': some('proxy'), 'args': args, 'res': res, 'err': err})
            ids['proxy'].append(res)
            if err:
                ids['exc'].append(err)
        elif r < .96:
            ep.append({'op': 'drop', 'n': some(rng.choice([k for k in ids if ids[k]]))})
        else:
            ep.append({'op': 'gc'})
    for k in ids:
        for i in sorted(ids[k], key=lambda x: rng.random()):
            ep.append({'op': 'drop', 'n': i})
    ep.append({'op': 'gc'})
    return ep
