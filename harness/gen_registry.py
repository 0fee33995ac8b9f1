"""Random histories for spec/Registry.tla."""


def history(rng, length):
    ep = [{'op': 'checker', 'id': 'c%d' % i, 'how': rng.choice(('', 'eq', 'falsy', 'sub'))} for i in range(3)]
    types, objs = [], []
    for i in range(rng.choice((2, 3, 4))):
        base = rng.choice([''] + [t for t in types]) if types else ''
        b = next((e for e in ep if e.get('id') == base and e['op'] == 'type'), None)
        meta = '' if base else rng.choice(('', '', 'meta', 'eq', 'liar', 'nocls'))
        exc = bool(b['exc']) if b else (rng.random() < .25 and not meta)
        ep.append({'op': 'type', 'id': 'T%d' % i, 'base': base, 'exc': exc, 'meta': meta})
        types.append('T%d' % i)
    targets = ['c0', 'c1', 'NOPROXY', 'NONE', 'boom']
    fns = []
    for i in range(4):
        e = {'op': 'fn', 'id': 'f%d' % i, 'to': rng.choice(targets + fns)}
        if rng.random() < .3:       # uses the registry itself
            e['act'] = rng.choice(({'op': 'define', 'what': rng.choice(types), 'entry': 'c0'},
                                   {'op': 'undefine', 'what': rng.choice(types)},
                                   {'op': 'undefine', 'what': rng.choice(types)}, {'op': 'cleanup'}))
        ep.append(e)
        fns.append('f%d' % i)
    for i in range(6):
        ep.append({'op': 'object', 'id': 'o%d' % i, 'type': rng.choice(types),
                   'own': rng.choice(('', '', '', 'c2', 'NONE', 'boom'))})
    for t in ('list', 'tuple', 'int', 'dict', 'str', 'type', 'function', 'module', 'module'):
        ep.append({'op': 'object', 'id': 'b%d' % len(ep), 'type': t, 'own': ''})
    objs = [e['id'] for e in ep if e['op'] == 'object']
    mods = [e['id'] for e in ep if e.get('type') == 'module']
    whats = types * 4 + mods * 2 + ['list', 'dict', 'type', 'int', 'str', 'tuple', 'function']
    entries = ['c0', 'c1', 'NOPROXY'] + fns
    for _ in range(length):
        r = rng.random()
        if r < .25:
            ep.append({'op': 'define', 'what': rng.choice(whats + ['o0', 'junk']), 'entry': rng.choice(entries)})
        elif r < .36:
            ep.append({'op': 'undefine', 'what': rng.choice(whats)})
        elif r < .39:
            ep.append({'op': 'cleanup'})
        elif r < .43:
            ep.append({'op': 'basic', 'what': rng.choice(types * 2 + ['list', 'dict', 'tuple']), 'entry': rng.choice(['NOPROXY'] * 3 + entries),
                       'how': rng.choice(('', 'update', 'pairs', 'ior', 'setdefault'))})
        elif r < .46:
            ep.append({'op': 'unbasic', 'what': rng.choice(types * 2 + ['list', 'dict', 'tuple']), 'how': rng.choice(('', 'pop', 'popitem', 'default'))})
        elif r < .55:
            ep.append({'op': 'lookup', 'what': rng.choice(whats)})
        elif r < .58:
            ep.append({'op': 'builtins'})
        else:
            ep.append({'op': rng.choice(('select', 'factory', 'result')), 'o': rng.choice(objs)})
    return ep
