"""Random histories for spec/Watching.tla."""
import gen_checkers

REPRS = ['', '', 'own', 'lines', 'fails', 'notext', 'denied']


def history(rng, length, comb=True):
    ep = gen_checkers.history(rng, {'check': 4, 'canaccess': 1, 'canwrite': 1, 'access': 2}, length, comb=comb, users=True, mid=False)
    std = [k for k, e in enumerate(ep) if e['op'] == 'std' and e['set']]
    for k in std:
        if rng.random() < .3:
            e = ep[k]
            ep[k] = {'op': 'wstd', 'id': e['id'], 'get': e['get'], 'set': e['set'], 'verb': rng.choice((0, 1, 2, 3)),
                     'how': rng.choice(('class', 'inst'))}
    cks = [e['id'] for e in ep if e['op'] in ('std', 'wstd', 'comb', 'user')]
    for e in ep:
        if e['op'] == 'object':
            e['repr'] = rng.choice(REPRS)
            if rng.random() < .25:
                e['checker'] = 'DEFAULT'
    ep.insert(0, {'op': 'watch', 'env': ''})
    assert cks
    return ep
