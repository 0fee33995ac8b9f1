"""Driver for spec/StdTypes.tla."""
import abc
import array
import collections
import datetime
import decimal
import fractions
import functools
import importlib
import io
import itertools
import operator
import queue
import random
import re
import threading
import types
import weakref

import drvlib
import gen_stdtypes

ADDRESS = re.compile('0x[0-9a-f]+')
GENERIC = re.compile(r'^<security proxied \S+ instance at 0x[0-9a-fA-F]+>$')


class Holder:
    """A class of the application, with something of everything."""
    attr = 1

    def method(self, *args):
        return [self, args, {'k': args}]


class AHolder(metaclass=abc.ABCMeta):
    pass


class Seq:
    def __init__(self, vals):
        self.vals = vals

    def __getitem__(self, i):
        return self.vals[i]


def function(*args):
    return [args]


def gen(vals):
    yield from vals


MODULE = types.ModuleType('some.module')
MODULE.secret = [1]


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubSet(set):
    pass


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubDecimal(decimal.Decimal):
    pass


class SubDate(datetime.datetime):
    pass


class SubThing(Holder):
    pass


Pair = collections.namedtuple('Pair', 'a b')


def btree(name, arg):
    return getattr(importlib.import_module('BTrees.OOBTree'), name)(arg)


# of types that nothing is said about, some of them close to ones that are
OTHERS = [
    lambda: bytearray(b'abc'), lambda: collections.deque([1, []]), lambda: collections.defaultdict(list, a=[1]),
    lambda: collections.Counter('aab'), lambda: collections.ChainMap({1: []}), lambda: collections.OrderedDict(a=[]),
    lambda: collections.UserList([1]), lambda: SubList([1, []]), lambda: SubDict(a=[]), lambda: SubSet([1]),
    lambda: SubStr('abc'), lambda: SubInt(3), lambda: SubDecimal(1), lambda: SubDate(2000, 1, 1), lambda: Pair([1], 2),
    lambda: types.SimpleNamespace(a=[]), lambda: types.MappingProxyType({1: []}), lambda: memoryview(bytearray(b'abc')),
    lambda: array.array('i', [1, 2]), lambda: io.StringIO('abc'), lambda: io.BytesIO(b'abc'), lambda: range(3),
    lambda: slice(1, 2), lambda: Holder(), lambda: SubThing(), lambda: functools.partial(function, []),
    lambda: property(function), lambda: staticmethod(function), lambda: classmethod(function),
    lambda: function.__code__, lambda: fractions.Fraction(1, 2), lambda: re.compile('a'),
    lambda: threading.local(), lambda: queue.SimpleQueue(), lambda: Seq([1]),
    lambda: btree('OOBTree', {'a': []}), lambda: btree('OOSet', ['a'])]

_true = lambda x: True
ITERTOOLS = {
    'groupby': itertools.groupby, 'grouper': lambda v: next(itertools.groupby(v))[1], 'cycle': itertools.cycle,
    'product': lambda v: itertools.product(v, v), 'repeat': lambda v: itertools.repeat(v, 2),
    'zip_longest': lambda v: itertools.zip_longest(v, [1]),
    'accumulate': lambda v: itertools.accumulate(v, lambda a, b: [a, b]), 'tee': lambda v: itertools.tee(v)[0],
    'takewhile': lambda v: itertools.takewhile(_true, v),
    'dropwhile': lambda v: itertools.dropwhile(lambda x: False, v), 'compress': lambda v: itertools.compress(v, [1, 1, 0]),
    'permutations': lambda v: itertools.permutations(v[:3]), 'combinations': lambda v: itertools.combinations(v[:3], 2),
    'combinations_wr': lambda v: itertools.combinations_with_replacement(v[:3], 2)}


class Values:
    """Values by kind; the same arguments give twins."""

    def __init__(self):
        import zope.interface
        from zope.i18nmessageid import Message
        from zope.interface.declarations import Declaration
        import pytz
        import BTrees.OOBTree
        self.Message, self.utc = Message, pytz.utc
        self.OOBTree = BTrees.OOBTree.OOBTree

        class IThing(zope.interface.Interface):
            def meth(a):
                "a method"
            att = zope.interface.Attribute('an attribute')

        class IOther(IThing):
            pass
        self.IThing, self.IOther = IThing, IOther

        @zope.interface.implementer(IThing)
        class Thing:
            pass
        zope.interface.directlyProvides(Thing, IOther)
        self.thing = Thing()
        self.classprovides = Thing.__dict__['__provides__']
        one = Thing()
        zope.interface.directlyProvides(one, IOther)
        self.provides = one.__provides__
        self.implements = zope.interface.implementedBy(Thing)
        self.declaration = Declaration(IThing)
        self.holders = [Holder(), Holder()]
        od = collections.OrderedDict(a=1)
        self.kinds = {}
        for k, v in {
                'int': 1, 'float': 1., 'complex': 1j, 'bool': True, 'none': None, 'str': '', 'bytes': b'',
                'message': Message('x'), 'timedelta': datetime.timedelta(1), 'datetime': datetime.datetime(2000, 1, 1),
                'date': datetime.date(2000, 1, 1), 'time': datetime.time(1), 'tzinfo': datetime.tzinfo(), 'utc': pytz.utc,
                'dict_keys': {}.keys(), 'dict_values': {}.values(), 'dict_items': {}.items(), 'object': object(),
                'provides': self.provides, 'implements': self.implements,
                'dict': {}, 'list': [], 'tuple': (), 'set': set(), 'frozenset': frozenset(),
                'decimal': decimal.Decimal(1), 'weakref': weakref.ref(self.thing), 'function': function,
                'method': self.holders[0].method, 'builtin': len, 'builtin_method': io.BytesIO().getbuffer,
                'wrapper': ().__repr__, 'class': Holder, 'abc_class': AHolder, 'module': MODULE,
                'list_iter': iter([]), 'tuple_iter': iter(()), 'dict_iter': iter({}), 'set_iter': iter(set()),
                'seq_iter': iter(Seq([])), 'generator': gen([]), 'odict_iter': iter(od), 'odict_keys': od.keys(),
                'odict_values': od.values(), 'odict_items': od.items(), 'islice': itertools.islice((), 1), 'count': itertools.count(), 'map_like': itertools.starmap(len, ()),
                'btree_items': self.OOBTree({'a': 1}).items(), 'btree_iter': iter(self.OOBTree({'a': 1})),
                'interface': IThing, 'ifmethod': IThing['meth'], 'class_provides': self.classprovides,
                'declaration': self.declaration}.items():
            self.kinds.setdefault(type(v), k)
        for k in ITERTOOLS:
            self.kinds.setdefault(type(ITERTOOLS[k]([[1], 2, 3])), k)

    def item(self, r, depth=2):
        n = r.randrange(9 if depth else 4)
        if n < 2:
            return r.randrange(4)
        if n == 2:
            return r.choice('abc')
        if n == 3:
            return self.holders[r.randrange(2)]
        return self.make(r.choice(('list', 'dict', 'tuple', 'set', 'frozenset', 'function', 'decimal')), r, depth - 1)

    def items(self, r, depth=2):
        return [self.item(r, depth) for _ in range(r.choice((0, 1, 2, 3, 3, 4)))]

    def keys(self, r):
        return [r.choice((0, 1, 2, 'a', 'b', 'c')) for _ in range(r.choice((0, 1, 2, 3)))]

    def make(self, kind, r, depth=2):
        it = lambda: self.items(r, depth)
        ks = lambda: self.keys(r)
        dct = lambda: {k: self.item(r, depth) for k in ks()}
        od = lambda: collections.OrderedDict((k, self.item(r, depth)) for k in [0] + ks())
        n = r.randrange(5)
        if kind in ITERTOOLS:
            return ITERTOOLS[kind]([[n], [n]] + it())
        return {
            'int': lambda: n, 'float': lambda: n / 2, 'complex': lambda: n + 1j, 'bool': lambda: n > 2,
            'none': lambda: None, 'str': lambda: 'abc'[:n], 'bytes': lambda: b'abc'[:n],
            'message': lambda: self.Message('m%d' % n, 'domain'), 'timedelta': lambda: datetime.timedelta(n),
            'datetime': lambda: datetime.datetime(2000 + n, 1, 1), 'date': lambda: datetime.date(2000 + n, 1, 1),
            'time': lambda: datetime.time(n), 'tzinfo': lambda: datetime.tzinfo(), 'utc': lambda: self.utc,
            'dict_keys': lambda: dct().keys(), 'dict_values': lambda: dct().values(),
            'dict_items': lambda: dct().items(), 'object': lambda: object(),
            'provides': lambda: self.provides, 'implements': lambda: self.implements,
            'dict': dct, 'list': it, 'tuple': lambda: tuple(it()), 'set': lambda: set(ks()),
            'frozenset': lambda: frozenset(ks()), 'decimal': lambda: decimal.Decimal(n) / 2,
            'weakref': lambda: weakref.ref(self.thing), 'function': lambda: function,
            'method': lambda: self.holders[0].method, 'builtin': lambda: r.choice((len, [1, 2].count, {1: []}.get)),
            'builtin_method': lambda: io.BytesIO(b'abc').getbuffer, 'wrapper': lambda: (1, [2]).__repr__,
            'class': lambda: Holder, 'abc_class': lambda: AHolder, 'module': lambda: MODULE,
            'list_iter': lambda: iter(it()), 'tuple_iter': lambda: iter(tuple(it())), 'dict_iter': lambda: iter(dct()),
            'set_iter': lambda: iter(set(ks())), 'seq_iter': lambda: iter(Seq(it())), 'generator': lambda: gen(it()),
            'odict_iter': lambda: iter(od()), 'odict_keys': lambda: od().keys(), 'odict_values': lambda: od().values(),
            'odict_items': lambda: od().items(), 'islice': lambda: itertools.islice(it(), 3), 'count': lambda: itertools.count(n),
            'map_like': lambda: itertools.starmap(max, [(1, 2), (3, 4)]),
            'btree_items': lambda: self.OOBTree({'a': it(), 'b': n}).items(),
            'btree_iter': lambda: iter(self.OOBTree({'a': it(), 'b': n})),
            'interface': lambda: r.choice((self.IThing, self.IOther)), 'ifmethod': lambda: self.IThing['meth'],
            'class_provides': lambda: self.classprovides, 'declaration': lambda: self.declaration,
        }[kind]()


def operand(way, n, kind):
    """A plain operand that suits the value."""
    if kind == 'list':
        return [n, 'a']
    if kind == 'tuple':
        return (n, 'a')
    if kind in ('set', 'frozenset'):
        return {n, 'a', 1}
    if kind == 'decimal' and way not in ('req', 'rlt'):
        # (a Decimal on the left of a comparison looks at the other's class)
        return decimal.Decimal(n + 1)
    return n + 1


def _setitem(x, n, o, v=None):
    x[n] = [7]


def _delitem(x, n, o):
    del x[n]


def _setslice(x, n, o):
    x[0:n] = [7]


def _delslice(x, n, o):
    del x[0:n]


def _int(x, n, o):
    return int(x)


WAYS = {
    'len': lambda x, n, o: len(x), 'iter': lambda x, n, o: iter(x), 'next': lambda x, n, o: next(x),
    'contains': lambda x, n, o: n in x, 'getitem': lambda x, n, o: x[(0, 1, 'a', 'b', 'c', 2, -1)[n]],
    'slice': lambda x, n, o: x[0:n], 'setitem': _setitem, 'delitem': _delitem, 'setslice': _setslice,
    'delslice': _delslice, 'call': lambda x, n, o: x(*([], [[1]], [1])[n % 3]),
    'str': lambda x, n, o: str(x), 'bool': lambda x, n, o: bool(x), 'hash': lambda x, n, o: hash(x),
    'repr': lambda x, n, o: repr(x), 'req': lambda x, n, o: o == x, 'rlt': lambda x, n, o: o < x,
    'int': _int, 'float': lambda x, n, o: float(x), 'index': lambda x, n, o: operator.index(x),
    'neg': lambda x, n, o: -x, 'pos': lambda x, n, o: +x, 'abs': lambda x, n, o: abs(x), 'invert': lambda x, n, o: ~x,
    'divmod': lambda x, n, o: divmod(x, o), 'rdivmod': lambda x, n, o: divmod(o, x), 'ipow': lambda x, n, o: operator.ipow(x, o),
}
for _n in ('add', 'mul', 'sub', 'and', 'or', 'xor', 'mod', 'floordiv', 'truediv', 'pow'):
    _f = getattr(operator, _n + '_' if _n in ('and', 'or') else _n)
    WAYS[_n] = lambda x, n, o, f=_f: f(x, o)
    WAYS['r' + _n] = lambda x, n, o, f=_f: f(o, x)
    WAYS['i' + _n] = lambda x, n, o, f=getattr(operator, 'i' + _n): f(x, o)
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    WAYS[_n] = lambda x, n, o, f=getattr(operator, _n): f(x, o)

EXTRA = ('append extend insert pop remove reverse sort clear update setdefault popitem add discard send throw close '
         '__setitem__ __delitem__ __iadd__ __imul__ __ior__ __dict__ __code__ __globals__ __func__ __self__ '
         '__closure__ __defaults__ __subclasses__ __call__ __init__ __new__ __setattr__ __delattr__ __reduce_ex__ '
         '__getattribute__ __weakref__ __slots__ _secret secret nosuch __wrapped__ __getnewargs__ __copy__ '
         '__deepcopy__ __contains__ __next__ next __iter__ __len__ __getitem__ __str__ keys get copy').split()


class StdTypesDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        from zope.security import checker, interfaces, proxy
        self.ck, self.ifc, self.px = checker, interfaces, proxy
        self.values = Values()
        self.rocks = set(gen_stdtypes.ROCKS)

    def reset(self, ev):
        self.vals = {}

    def kind(self, v):
        return self.values.kinds.get(type(v), 'other')

    def form(self, v):
        return 'proxied' if type(v) is self.px.Proxy else 'raw'

    def op_new(self, e):
        if e['kind'] == 'other':
            make = OTHERS[e['v'] % len(OTHERS)]
        else:
            make = lambda: self.values.make(e['kind'], random.Random(e['v']))
        a, b = make(), make()
        p = self.ck.ProxyFactory(a)
        if self.px.removeSecurityProxy(p) is not a:
            return {'r': 'other object', 'form': ''}
        self.vals[e['id']] = (p, b, e['kind'])
        return {'r': 'done', 'form': self.form(p)}

    # comparing twins
    def snap(self, v, depth=4):
        v = self.px.removeSecurityProxy(v)
        t = type(v)
        if depth == 0:
            return '...'
        if t in (list, tuple):
            return t.__name__ + repr([self.snap(x, depth - 1) for x in v])
        if t in (set, frozenset):
            return t.__name__ + repr(sorted(self.snap(x, depth - 1) for x in v))
        if t in (dict, collections.OrderedDict):
            return t.__name__ + repr([(k, self.snap(x, depth - 1)) for k, x in v.items()])
        if t.__name__.endswith(('iterator', 'Iterator')):
            return t.__name__ + str(operator.length_hint(v))
        if t is types.GeneratorType:
            return 'generator' + str(v.gi_frame.f_lasti if v.gi_frame else None)
        if t in (types.MethodType, types.BuiltinMethodType):
            return t.__name__ + v.__name__ + self.snap(getattr(v, '__self__', None), depth - 1)
        return t.__name__ + ADDRESS.sub('', repr(v))

    def run(self, e, f, res=''):
        """Do it through the proxy and, unless refused, to the twin."""
        p, b, kind = self.vals[e['id']]
        if kind in self.rocks:
            return {'r': 'rock'}
        bare = self.px.removeSecurityProxy(p)

        def go(x):
            try:
                return 'ok', f(x)
            except (self.ifc.ForbiddenAttribute, self.ifc.Unauthorized):
                return 'forbid', None
            except Exception as ex:
                return 'error', type(ex).__name__
        r, v = go(p)
        if r == 'ok' and self.px.removeSecurityProxy(v) is bare and v is not p and type(v) is not self.px.Proxy:
            return {'r': 'shed', 'val': '', 'form': '', 'same': '', 'sync': ''}
        if r == 'forbid':
            obs = {'r': r, 'val': '', 'form': '', 'same': ''}
        else:
            r2, v2 = go(bare if e.get('way') == 'hash' else b)
            if r != r2:
                obs = {'r': r, 'val': '', 'form': '', 'same': 'no: %s %s' % (r2, v2)}
            elif r == 'error':
                obs = {'r': r, 'val': '', 'form': '', 'same': 'yes' if v == v2 or {v, v2} == {'TypeError', 'AttributeError'}
                       else 'no: %s %s' % (v, v2)}
            else:
                if v2 is b:
                    same = self.px.removeSecurityProxy(v) is bare
                elif v2 is NotImplemented:
                    same = v is v2
                else:
                    same = self.snap(v) == self.snap(v2)
                if same:
                    same = 'yes'
                elif type(v) is str and GENERIC.match(v):
                    same = 'generic'
                else:
                    same = 'no'
                obs = {'r': r, 'val': self.kind(v2), 'form': self.form(v), 'same': same}
                if res:
                    self.vals[res] = (v, v2, obs['val'])
        obs['sync'] = 'yes' if self.snap(bare) == self.snap(b) else 'no'
        return obs

    def known(self, e):
        return e['id'] in self.vals

    def op_get(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        n = e['name']
        if self.impl == 'py' and n not in ('__class__', '__doc__', '__module__') \
                and any(n in k.__dict__ for k in self.px.Proxy.__mro__):
            # the pure-Python proxy has the special methods itself
            p, b, kind = self.vals[e['id']]

            def f(x):
                getattr(p, n)
                if n == '__iter__':
                    getattr(b, n)
            return self.run(e, f, e['res'])
        return self.run(e, lambda x: getattr(x, n), e['res'])

    def op_set(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        return self.run(e, lambda x: setattr(x, e['name'], 1))

    def op_del(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        return self.run(e, lambda x: delattr(x, e['name']))

    def op_use(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        n = e['arg']
        kind = self.vals[e['id']][2]
        way = WAYS[e['way']]
        return self.run(e, lambda x: way(x, n, operand(e['way'], n, kind)), e['res'])

    def op_mutate(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        p, b, kind = self.vals[e['id']]
        for x in (self.px.removeSecurityProxy(p), b):
            r = random.Random(e['v'])
            try:
                if kind == 'list':
                    x.insert(r.randrange(3), self.values.item(r))
                elif kind == 'dict':
                    x[r.choice((0, 1, 'a', 'z'))] = self.values.item(r)
                elif kind == 'set':
                    x.add(r.randrange(9))
            except Exception:
                pass
        return {'r': 'done'}

    def op_sweep(self, e):
        if not self.known(e):
            return {'r': 'skip'}
        p, b, kind = self.vals[e['id']]
        bare = self.px.removeSecurityProxy(p)
        names = sorted(set(dir(bare)) | set(dir(type(bare))) | set(EXTRA))
        if not hasattr(bare, '__iter__'):
            # then reading it may also fail plainly
            names = [n for n in names if n != '__iter__']
        e['names'] = names
        before = self.snap(bare)
        res = {'granted': [], 'writable': [], 'deletable': []}
        for n in names:
            for k, f in (('granted', lambda: getattr(p, n)), ('writable', lambda: setattr(p, n, None)),
                         ('deletable', lambda: delattr(p, n))):
                try:
                    f()
                except (self.ifc.ForbiddenAttribute, self.ifc.Unauthorized):
                    continue
                except Exception:
                    pass
                res[k].append(n)
        return dict(res, r='ok', sync='yes' if self.snap(bare) == before else 'no')


if __name__ == '__main__':
    drvlib.main(StdTypesDriver)
