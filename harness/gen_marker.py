"""Random histories for spec/Marker.tla."""
import re

with open(__file__.replace('harness/gen_marker.py', 'spec/Marker.tla')) as f:
    _src = f.read()


def _names(what):
    return re.findall(r'"([\w-]+)"', re.search(r'^%s == \{(.*?)\}' % what, _src, re.S | re.M).group(1))


KINDS, ROUTES = _names('Kinds'), _names('Routes')
WAYS = _names('Checking') + _names('Predicting') + _names('Asking')
WAYS.remove('declared')
POLS = ['none', 'permissive', 'paranoid', 'paranoid-system', 'paranoid-user', 'paranoid-both', 'all', 'nothing']


def history(rng, length):
    ep, ids = [], ['M', 'M', 'M', 'N']
    declared = ['M']
    for _ in range(length):
        r = rng.random()
        if r < .1:
            k = rng.choice(KINDS)
            i = 'k%d' % len(ep)
            ep.append({'op': 'make', 'id': i, 'kind': k})
            ids.append(i)
            if k in ('id', 'name', 'perm'):
                declared.append(i)
        elif r < .45:
            # a result may be missing for anything but the marker
            v = rng.choice(ids)
            ep.append({'op': 'travel', 'v': v, 'how': rng.choice(ROUTES + ['remove'] * (v == 'M')),
                       'id': '%s%d' % ('m' if v[0] in 'Mm' else 'z', len(ep))})
            if v == 'M' and ep[-1]['how'] == 'remove':
                ep[-1]['id'] = i = 'q%d' % len(ep)
                ids.append(i)
            elif v[0] in 'Mm':
                ids += [ep[-1]['id']] * 2
        elif r < .55:
            ep.append({'op': 'pol', 'kind': rng.choice(POLS)})
        elif r < .95:
            ep.append({'op': 'ask', 'v': rng.choice(ids), 'how': rng.choice(WAYS)})
        else:
            ep.append({'op': 'ask', 'v': rng.choice(declared), 'how': 'declared'})
    return ep
