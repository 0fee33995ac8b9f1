"""Random histories for spec/Proxying.tla: a web of objects whose special
methods return each other, explored through proxies."""
from drvlib import enc_name

BINS = 'add sub mul truediv floordiv mod divmod pow lshift rshift and or xor'.split()
INPL = 'add sub mul truediv floordiv mod pow lshift rshift and or xor'.split()
CMPS = 'lt le eq ne gt ge'.split()
UN = 'neg pos abs invert int float index'.split()
ATTRS = ['a', 'b', 'c', '_d', '\\xe9', '__name__', '__parent__', '__providedBy__', '__implements__', '__conform__']
INSIDES = ('_wrapped _checker __init__ __new__ __setattr__ __delattr__ __getattribute__ __getattr__ __setstate__ '
           '__getstate__ __reduce__ __reduce_ex__ __dict__ __slots__ __dir__ __Security_checker__').split()


WAYS = {
    'getitem': ('sq', 'dot', 'getter', 'sq'), 'setitem': ('sq',), 'delitem': ('sq',), 'contains': ('in', 'notin'),
    'len': ('sq', 'mp', 'object'), 'call': ('object', 'args', 'partial'), 'iter': ('api',), 'hash': ('op',),
    'get': ('slot', 'getter'), 'set': ('slot',), 'del': ('slot',), 'bool': ('if', 'not', 'truth'), 'str': ('fmt', 'conv', 'print', 'call'), 'repr': ('fmt', 'conv', 'list')}


BASES = 'str int float complex bytes tuple list dict set frozenset date timedelta'.split()


def dn(n):
    return '__%s__' % n


ERRORS = ['', '', '', 'TypeError', 'AttributeError', 'KeyError', 'IndexError', 'ValueError', 'RuntimeError',
          'OverflowError', 'ZeroDivisionError', 'NotImplementedError', 'RecursionError', 'LookupError']


def script(rng, name, objs, held):
    """What a special method does."""
    m = script1(rng, name, objs, held)
    if m['t'] == 'boom':
        m['v'] = rng.choice(ERRORS)
        if rng.random() < .3:
            m = {'t': 'none', 'v': ''}
    return m


def script1(rng, name, objs, held):
    r = rng.random()
    if name in ('__int__', '__index__', '__len__', '__hash__', '__length_hint__'):
        return {'t': 'ret', 'v': 'i:%d' % rng.randrange(5)} if r < .9 else {'t': 'boom', 'v': ''}
    if name == '__float__':
        return {'t': 'ret', 'v': 'f:1.5'} if r < .9 else {'t': 'boom', 'v': ''}
    if name == '__bool__':
        return {'t': 'ret', 'v': rng.choice(('True', 'False'))} if r < .9 else {'t': 'boom', 'v': ''}
    if name in ('__str__', '__repr__'):
        return {'t': 'ret', 'v': rng.choice(('s:abc', 's:', 's:x', 'ss:abc', 'ss:x', 'i:5'))} \
            if r < .85 else {'t': 'boom', 'v': ''}
    if name == '__contains__':
        return {'t': 'ret', 'v': rng.choice(('True', 'False', 'None', 'i:0', 'i:7'))} if r < .9 else {'t': 'boom', 'v': ''}
    if name == '__next__':
        return {'t': 'next', 'v': ''} if r < .8 else {'t': 'boom', 'v': ''}
    if name == '__iter__':
        return {'t': 'self', 'v': ''} if r < .5 else {'t': 'ret', 'v': rng.choice(objs)}
    takes_arg = name not in ('__neg__', '__pos__', '__abs__', '__invert__')
    if r < .4:
        return {'t': 'ret', 'v': rng.choice(objs)}
    if r < .5:
        return {'t': 'self', 'v': ''}
    if r < .6:
        return {'t': 'ret', 'v': rng.choice(('i:5', 'i:0', 'None', 'True'))}
    if r < .7 and takes_arg and name != '__call__':
        return {'t': 'arg', 'v': ''}
    if r < .77:
        return {'t': 'held', 'v': rng.choice(held)}
    if r < .93 and takes_arg and name not in ('__getitem__', '__setitem__', '__delitem__', '__call__'):
        return {'t': 'notimpl', 'v': ''} if r < .85 else {'t': 'picky', 'v': rng.choice(objs)}
    if r < .95:
        return {'t': 'boom', 'v': ''}
    return {'t': 'ret', 'v': rng.choice(objs)}


GROUPS = {
    'item': ['__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__call__',
             '__iter__', '__next__', '__length_hint__'],
    'text': ['__str__', '__repr__', '__hash__', '__bool__'],
    'un': [dn(n) for n in UN],
}
ALLNAMES = (GROUPS['item'] + GROUPS['text'] + GROUPS['un']
            + [dn(p + n) for n in BINS for p in ('', 'r', 'i') if (p, n) != ('i', 'divmod')]
            + [dn(n) for n in CMPS] + ['__3pow__', '__class__', '__complex__'] + ATTRS)


def history(rng, length, ops=None, probes=(), norepr=False, attacks=()):
    ops = ops or {'bin': 5, 'inplace': 3, 'pow3': 1, 'cmp': 2, 'un': 3, 'item': 5, 'attr': 3, 'free': 3}
    nobj = rng.choice((2, 3, 4, 5))
    objs = ['o%d' % i for i in range(nobj)]
    held = ['p%d' % i for i in range(nobj)] + ['h%d' % i for i in range(6)]
    based = ['b0', 'b1'][:rng.choice((0, 1, 2))]
    # concentrate on a few operators so that operands meet
    bins = rng.sample(BINS, 3)
    if rng.random() < .4:
        bins.append('pow')
    inpl = [b for b in bins if b != 'divmod'] or ['add']
    cmps = rng.sample(CMPS, 2)
    uns = rng.sample(UN, 3)
    names = ([dn(b) for b in bins] + [dn('r' + b) for b in bins] + [dn('i' + b) for b in inpl]
             + [dn(n) for n in uns] + [dn(n) for n in cmps] + GROUPS['item'] + GROUPS['text'] + ATTRS
             + ['__class__', '__3pow__'] + (INSIDES if attacks else []))
    perms = ['PUBLIC', 'PUBLIC', 'PUBLIC', 'p', 'q', 'NONE'] + rng.choice(([], [], ['', '%false', '%equal']))
    ep = []
    openness = rng.choice((.3, .6, .9, 1))
    cks = []
    for i in range(rng.choice((1, 2, 3))):
        g = {}
        for n in names:
            if rng.random() < openness:
                g[n] = rng.choice(perms)
        s = {a: rng.choice(perms) for a in ATTRS + (INSIDES if attacks else []) if rng.random() < openness}
        # granting near misses must not matter
        for n in rng.sample(ALLNAMES, 3):
            g.setdefault(n, 'PUBLIC')
        ep.append({'op': 'table', 'id': 'g%d' % i, 'map': g})
        ep.append({'op': 'table', 'id': 's%d' % i, 'map': s})
        ep.append({'op': 'std', 'id': 'c%d' % i, 'get': 'g%d' % i, 'set': 's%d' % i,
                   'how': rng.choice(('', '', 'eq', 'falsy', 'sub'))})
        cks.append('c%d' % i)
    if len(cks) > 1 and rng.random() < .3:
        ep.append({'op': 'comb', 'id': 'k', 'a': cks[0], 'b': cks[1]})
        cks.append('k')
    pol = lambda: {'op': 'policy', 'kind': 'none' if rng.random() < .1 else 'table',
                   'grant': [p for p in ('p', 'q', '', '%false', '%equal') if rng.random() < .6],
                   'fail': ['q'] if rng.random() < .08 else []}
    open_ = ['NOPROXY'] if rng.random() < .4 else []
    for b in based:
        # instances of subclasses of built-in types are no rocks
        ep.append({'op': 'subject', 'id': b, 'meths': {}, 'attrs': {}, 'items': [],
                   'base': rng.choice(BASES), 'checker': rng.choice(cks + ['DEFAULT'] + open_),
                   'how': rng.choice(('attr', 'type', 'func', 'inst'))})
    for o in objs:
        meths = {}
        cand = [n for n in names if n.startswith('__') and n not in
                ('__class__', '__3pow__', '__eq__', '__ne__') + tuple(ATTRS) + tuple(INSIDES)]
        dens = rng.choice((.3, .6, .9))
        for n in cand:
            if rng.random() < dens and not (norepr and n == '__repr__'):
                meths[n] = script(rng, n, objs if n == '__iter__' else objs + based, held)
        if rng.random() < .4 and ('__eq__' in names or '__ne__' in names):
            meths['__eq__'] = script(rng, '__eq__', objs, held)
            meths['__ne__'] = script(rng, '__ne__', objs, held)
        attrs = {a: rng.choice(based + objs[:objs.index(o)] + ['i:1', 's:x', 'None']) for a in ATTRS if rng.random() < .5}
        items = [rng.choice(based + objs[:objs.index(o)] + ['i:1', 'None', 'i:3']) for _ in range(rng.randrange(4))]
        ep.append({'op': 'subject', 'id': o, 'meths': meths, 'attrs': attrs, 'items': items,
                   'checker': rng.choice(cks + cks + ['DEFAULT'] + open_),
                   'how': rng.choice(('attr', 'type', 'func', 'inst'))})
    for i, v in enumerate(('i:5', 'i:0', 'None', 'True')):
        ep.append({'op': 'rock', 'id': 'k%d' % i, 'v': v})
    ep.append(pol())
    for i, o in enumerate(objs):
        ep.append({'op': 'factory', 'x': o, 'c': rng.choice(['', '', rng.choice(cks)]), 'res': 'p%d' % i})
    base = ['p%d' % i for i in range(nobj)]
    handles = base * 4 + objs * 2 + based + ['k0', 'k1', 'k2', 'k3']
    nh = 0
    kinds = [k for k, w in ops.items() for _ in range(w)]
    H = lambda: rng.choice(handles)
    P = lambda: rng.choice(base if rng.random() < .6 else handles[-8:] if rng.random() < .6 else handles)
    for _ in range(length):
        k = rng.choice(kinds)
        res = 'h%d' % nh
        r = rng.random()
        e = None
        if r < .04:
            ep.append(pol())
            continue
        if r < .08:
            c = rng.randrange(sum(1 for x in cks if x[0] == 'c'))
            ep.append({'op': 'entry', 'id': 'g%d' % c, 'name': rng.choice(names), 'perm': rng.choice(perms)})
            continue
        if r > .98:
            w = rng.choice(('factory', 'proxy', 'checker', 'call', 'attr', 'item', 'remove'))
            ep.append({'op': 'liar', 'how': w, 'own': rng.choice(['', rng.choice(cks)]),
                       'c': rng.choice(cks) if w == 'proxy' else rng.choice(['', rng.choice(cks)]) if w == 'factory' else ''})
            continue
        if attacks and r > .8:
            ep.append({'op': 'attack', 'x': P(), 'how': rng.choice(attacks)})
            continue
        if probes and r < .3:
            ep.append({'op': 'probe', 'x': P(), 'how': rng.choice(probes)})
            continue
        if k == 'bin':
            e = {'op': 'bin', 'name': rng.choice(bins), 'x': H(), 'y': H(), 'res': res}
        elif k == 'inplace':
            e = {'op': 'inplace', 'name': rng.choice(inpl), 'x': P(), 'y': H(), 'res': res}
        elif k == 'pow3':
            e = {'op': 'pow3', 'x': H(), 'y': H(), 'z': H(), 'res': res}
        elif k == 'cmp':
            e = {'op': 'cmp', 'name': rng.choice(cmps), 'x': H(), 'y': H(), 'res': res}
        elif k == 'un':
            e = {'op': 'un', 'name': rng.choice(uns), 'x': P(), 'res': res}
        elif k == 'item':
            w = rng.choice(('getitem', 'getitem', 'setitem', 'delitem', 'contains', 'len', 'hint', 'call',
                            'call', 'iter', 'iter', 'next', 'next'))
            e = {'op': w, 'x': P()}
            if w in ('getitem', 'setitem', 'delitem'):
                e['k'] = rng.choice(('k0', 'k1', H()))
            if w in ('setitem', 'contains'):
                e['v'] = H()
            if w == 'call':
                e['args'] = [H() for _ in range(rng.randrange(3))]
            if w in ('getitem', 'call', 'iter', 'next'):
                e['res'] = res
        elif k == 'attr':
            w = rng.choice(('get', 'get', 'set', 'del'))
            e = {'op': w, 'x': P(), 'name': rng.choice(ATTRS)}
            if w == 'get':
                e['res'] = res
                if rng.random() < .15:
                    e['name'] = '__class__'
            if w == 'set':
                e['v'] = H()
            if rng.random() < .25:
                # what the object that is the name pretends to be
                e['lie'] = rng.choice(('99', '0', '1', '2', '3', '4', 'sub', 'raise'))
                e['as'] = rng.choice(ATTRS)
        elif k == 'free':
            e = {'op': rng.choice(('hash', 'bool', 'str', 'repr')), 'x': P()}
        elif k == 'make':
            w = rng.choice(('factory', 'factory', 'mkproxy', 'remove', 'protect', 'checkerof', 'isa'))
            e = {'op': w, 'x': P()}
            if w in ('factory', 'mkproxy'):
                e['c'] = rng.choice(['', rng.choice(cks), rng.choice(cks)])
            if w == 'protect':
                e['c'] = rng.choice(cks)
            if w == 'isa':
                e['o'] = rng.choice(objs)
            else:
                e['res'] = res
            if w == 'checkerof':
                del e['res']
        if w_ := WAYS.get(e['op']):
            if rng.random() < .5:
                e['via'] = rng.choice(w_)
            if e['op'] == 'call' and rng.random() < .3:
                e['kw'] = {n: H() for n in 'ab' if rng.random() < .6}
        ep.append(e)
        if 'res' in e:
            handles.append(res)
            nh += 1
    return ep
