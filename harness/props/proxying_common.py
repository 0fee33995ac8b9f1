import re

import gen_proxying
import vlib

with open(__file__.replace('props/proxying_common.py', 'drv_proxying.py')) as f:
    _src = f.read()
PROBES = sorted(re.findall(r"^    '(\w+)':", _src[_src.index('PROBES = {'):], re.M))
ATTACKS = sorted(re.findall(r"^    '(\w+)':", _src[_src.index('ATTACKS = {'):_src.index('PROBES = {')], re.M))
LIARS = ['lie-%s-%s-%d' % (s, h, n) for s in ('wrapped', 'checker') for h in ('get', 'tget', 'set', 'tset', 'del')
         for n in (1, 2, 3, 99)]
DRV, SPEC = 'drv_proxying.py', 'TrProxying'


def rename(ep, name, op):
    """The same episode about another operator; every result gets a name."""
    def nm(n):
        for p in ('', 'r', 'i'):
            if n == '__%sadd__' % p:
                return '__%s%s__' % (p, name)
        return n
    out = []
    for k, e in enumerate(ep):
        e = dict(e)
        if name != 'add':
            if e['op'] == op:
                e['name'] = name
            if e['op'] in ('entry', 'noentry'):
                e['name'] = nm(e['name'])
            if e['op'] == 'subject':
                e['meths'] = {nm(n): m for n, m in dict(e['meths']).items()}
        if e.get('res') == 'r':
            e['res'] = 'h%d' % k
        out.append(e)
    return out


def tours(c, parts):
    mcs = c.mcs('MCProxying', ['MCProxying.%s.cfg' % part for part in parts], emit=True)
    for part, mc in zip(parts, mcs):
        base = {impl: vlib.tour(mc, impl, c.rng) for impl in ('c', 'py')}
        op = {'bin': 'bin', 'bin2': 'bin', 'inplace': 'inplace'}.get(part)
        names = {'bin': gen_proxying.BINS, 'inplace': gen_proxying.INPL}.get(part, ['add'])
        if part == 'bin2':
            names = c.rng.sample(gen_proxying.BINS, c.n(1, 13))
        c.conform(DRV, SPEC, lambda impl: [rename(ep, n, op) for n in names for ep in base[impl]],
                  src='tour ' + part)


def histories(c, n, length, ops, probes=True, configs=('c', 'py', 'c-watch', 'py-watch'), attacks=()):
    def some(k, norepr=False):
        return [gen_proxying.history(c.rng, length, ops, PROBES if probes else (), norepr, attacks)
                for _ in range(k)]
    c.conform(DRV, SPEC, some(n), configs=configs[:2], src='random')
    # reports of watched checks call the objects' repr()
    c.conform(DRV, SPEC, some(n // 6, True), configs=configs[2:], src='random')
