"""Driver for spec/Proxying.tla."""
import copy
import ctypes
import datetime
import functools
import io
import math
import operator
import pickle
import re
import types

import drvlib
from drvlib import dec, enc_name
from drv_checkers import Boom, CheckersDriver


class SubStr(str):
    pass


class _Seq:
    def __len__(self):
        return 0

    def __getitem__(self, i):
        raise IndexError(i)


SPECIAL = ('__name__', '__parent__', '__providedBy__', '__implements__', '__conform__')
GENERIC = re.compile(r'^<security proxied (?:\S+\.)?(\w+) instance at (?:0x)?[0-9A-Fa-f]+>$')
BIN = {n: getattr(operator, n) for n in
       'add sub mul truediv floordiv mod lshift rshift xor'.split()}
BIN.update({'and': operator.and_, 'or': operator.or_, 'divmod': divmod, 'pow': operator.pow})
INPLACE = {n: getattr(operator, 'i' + n) for n in
           'add sub mul truediv floordiv mod lshift rshift xor and or pow'.split()}
CMP = {n: getattr(operator, n) for n in 'lt le eq ne gt ge'.split()}
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'invert': operator.invert,
         'int': int, 'float': float, 'index': operator.index}


ERRORS = {'': Boom}
ERRORS.update({k.__name__: k for k in (
    TypeError, AttributeError, KeyError, IndexError, ValueError, RuntimeError, OverflowError, ZeroDivisionError,
    NotImplementedError, RecursionError, LookupError)})


class StrSub(str):
    pass


class RaisingName(str):
    def __eq__(self, other):
        raise RuntimeError('boom')
    __ne__ = __lt__ = __contains__ = __str__ = __repr__ = __format__ = __eq__

    def __hash__(self):
        raise RuntimeError('boom')


class LyingName(str):
    """Hashes and compares as another name, some number of times."""
    left = 99

    def cur(self):
        self.left -= 1
        return self.other if self.left >= 0 else str.__str__(self)

    def __hash__(self):
        return hash(self.cur())

    def __eq__(self, other):
        return (self.other if self.left >= 0 else str.__str__(self)) == other

    def __ne__(self, other):
        return not self == other

    def __str__(self):
        return self.other
    __repr__ = __str__


BASES = {t.__name__: (t,) + a for t, a in (
    (str, ('abc',)), (int, (5,)), (float, (1.5,)), (complex, (1j,)), (bytes, (b'ab',)), (tuple, ((1, 2),)),
    (list, ([1],)), (dict, ({1: 2},)), (set, ({1},)), (frozenset, ({1},)),
    (datetime.date, (2003, 1, 1)), (datetime.timedelta, (3,)))}


class ProxyingDriver(CheckersDriver):

    MAKING = {'factory', 'mkproxy', 'remove', 'protect', 'checkerof'}
    FREE = {'hash', 'bool', 'str', 'repr'}

    def reset(self, ev):
        super().reset(ev)
        ck, px = self.ck, self.px

        class Unregistered:
            pass
        # the checkers that are there from the start
        self.keep = [iter(_Seq()), Unregistered()]
        self.cknames = {
            id(px.getChecker(ck.ProxyFactory(self.keep[0]))): 'SEQITER',
            id(px.getChecker(ck.ProxyFactory(Unregistered))): 'TYPE',
            id(px.getChecker(ck.ProxyFactory(self.keep[1]))): 'DEFAULT',
        }
        self.handles, self.pnames = {}, {}
        self.eff = []
        self.meths, self.items = {}, {}
        self.open = False
        self.derived, self.based = set(), set()

    # ---- values
    def rock(self, s):
        k, _, v = s.partition(':')
        if s in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[s]
        return {'i': int, 's': str, 'f': float, 'ss': SubStr}[k](v)

    def value(self, s):
        if s in self.objs:
            return self.objs[s]
        return self.rock(s)

    def isproxy(self, v):
        return issubclass(type(v), self.px.Proxy)

    def desc(self, v, res=''):
        """The name of a value; of a proxy not seen before, its parts."""
        if self.isproxy(v):
            n = self.pnames.get(id(v))
            if n is not None:
                return n
            c = self.px.getChecker(v)
            inner = self.desc(self.px.removeSecurityProxy(v), res)
            if res:
                self.pnames[id(v)] = '@' + res
                self.keep.append(v)
            return 'new:%s:%s' % (inner, self.cknames.get(id(c), '?'))
        n = self.onames.get(id(v))
        if n is not None:
            return n
        t = type(v)
        if v is None or t is bool:
            return str(v)
        if t is int:
            return 'i:%d' % v
        if t is str:
            return 's:' + enc_name(v)
        if t is float:
            return 'f:%r' % v
        if t is SubStr:
            return 'ss:' + enc_name(str.__str__(v))
        if t is type(self.keep[0]):
            n = 'it:' + res
            self.derived.add(n)
            self.keep.append(v)
            self.onames[id(v)] = n
            self.objs[n] = v
            return n
        return 'raw:' + t.__name__

    def kind(self, v):
        if self.isproxy(v):
            v = self.px.removeSecurityProxy(v)
            if self.isproxy(v):
                return 'double'
        n = self.onames.get(id(v))
        if n is None:
            return 'rock'
        if n.startswith('class:'):
            return 'class'
        if n in self.derived:
            return 'seqiter'
        return 'based' if n in self.based else 'subject'

    def leftout(self, e):
        hs = [e[f] for f in ('x', 'y', 'z', 'k', 'v') if f in e] + list(e.get('args', ())) \
            + list(e.get('kw', {}).values())
        if any(h not in self.handles for h in hs):
            return True
        op = e['op']
        if op in self.MAKING:
            return False
        if any(self.kind(self.handles[h]) == 'double' for h in hs):
            return True
        K = lambda f: self.kind(self.handles[e[f]])
        if op in ('bin', 'inplace', 'cmp', 'pow3'):
            ks = {K(f) for f in 'xyz' if f in e}
            if op in ('bin', 'inplace') and e['name'] in ('mod', 'mul') and any(
                    issubclass(type(self.px.removeSecurityProxy(self.handles[e[f]])), str) for f in 'xy'):
                return True
            return not (ks <= {'rock', 'subject'} and {K('x'), K('y')} != {'rock'})
        if op in ('probe', 'attack'):
            return not self.isproxy(self.handles[e['x']]) or K('x') != 'subject' or self.open
        if op == 'isa':
            return K('x') == 'double'
        if op in ('next', 'iter'):
            return K('x') not in ('subject', 'seqiter')
        if op in self.FREE:
            return K('x') not in ('subject', 'seqiter', 'class')
        if op == 'contains' and K('x') == 'subject':
            ms = self.meths[self.onames[id(self.bare(e))]]
            return '__contains__' not in ms and not {'__iter__', '__getitem__'}.isdisjoint(ms)
        return K('x') != 'subject'

    def oname(self, o):
        return self.desc(o)

    def error(self, classes, n):
        return classes[0]()          # operators give other kinds a meaning of their own

    # ---- set up
    def op_std(self, e):
        obs = super().op_std(e)
        self.cknames[id(self.checkers[e['id']])] = e['id']
        return obs

    def op_comb(self, e):
        obs = super().op_comb(e)
        self.cknames[id(self.checkers[e['id']])] = e['id']
        return obs

    def script(self, oid, name, m):
        drv = self

        def method(self, *args, **kw):
            drv.eff.append('%s.%s(%s)' % (oid, name, ','.join(
                [drv.desc(a) for a in args] + ['%s=%s' % (k, drv.desc(a)) for k, a in sorted(kw.items())])))
            t = m['t']
            if len(drv.eff) > 60:        # iteration without an end
                raise Boom()
            if t == 'ret':
                return drv.value(m['v'])
            if t == 'self':
                return self
            if t == 'arg':
                return args[0]
            if t == 'held':
                return drv.handles.get(m['v'])
            if t == 'notimpl' or t == 'picky' and any(issubclass(type(a), drv.px.Proxy) for a in args):
                return NotImplemented
            if t == 'picky':
                return drv.value(m['v'])
            if t == 'next':
                items = drv.items[oid]
                if not items:
                    raise StopIteration
                return drv.value(items.pop(0))
            raise ERRORS[m['v']]()
        method.__name__ = name
        return method

    def op_subject(self, e):
        drv, oid = self, e['id']
        meths = dict(e['meths'])
        ns = {name: None if m['t'] == 'none' else self.script(oid, name, m) for name, m in meths.items()}
        ns.setdefault('__hash__', object.__hash__)

        def watched(name):
            return not name.startswith('__') or name in SPECIAL

        def __getattribute__(self, name):
            if drv.armed == 'all' and name != '__class__' or drv.armed and watched(name):
                drv.eff.append('%s.%s' % (oid, enc_name(name)))
            return object.__getattribute__(self, name)

        def __setattr__(self, name, value):
            drv.eff.append('%s.%s=%s' % (oid, enc_name(name), drv.desc(value)))
            object.__setattr__(self, name, value)

        def __delattr__(self, name):
            drv.eff.append('%s.del %s' % (oid, enc_name(name)))
            object.__delattr__(self, name)
        ns.update(__getattribute__=__getattribute__, __setattr__=__setattr__,
                  __delattr__=__delattr__)
        c, how = e['checker'], e.get('how', 'attr')
        own = self.checkers.get(c)
        if c not in ('NOPROXY', 'DEFAULT') and how == 'attr':
            ns['__Security_checker__'] = own
        base = BASES.get(e.get('base', ''), (object,))
        if base[0] is not object:
            del ns['__hash__']
        cls = type('Subject_' + oid, base[:1], ns)
        if c == 'NOPROXY':
            self.ck.defineChecker(cls, self.ck.NoProxy)
        elif c != 'DEFAULT' and how == 'type':
            self.ck.defineChecker(cls, own)
        elif c != 'DEFAULT' and how == 'func':
            self.ck.defineChecker(cls, lambda ob: own)
        o = cls(*base[1:])
        self.add_object(oid, o)
        if base[0] is not object:
            self.based.add(oid)
        if c != 'DEFAULT' and c != 'NOPROXY' and how == 'inst':
            object.__setattr__(o, '__Security_checker__', own)
        for k, v in dict(e['attrs']).items():
            object.__setattr__(o, dec(k), self.value(v))
        self.items[oid] = list(e['items'])
        self.handles[oid] = o
        self.onames[id(cls)] = 'class:' + oid
        self.meths[oid] = meths
        if c == 'NOPROXY':
            self.open = True
        return {'r': 'done'}

    armed = False

    def op_rock(self, e):
        self.handles[e['id']] = self.rock(e['v'])
        return {'r': 'done'}

    # ---- operations
    def exc_args(self, e, shape, strict):
        a = e.args
        if len(a) != len(shape):
            return 'args:%d' % len(a)
        d = dict(zip(shape, a))
        if not isinstance(d['n'], str):
            return 'name:' + type(d['n']).__name__
        o = d['o']
        if self.isproxy(o) or self.desc(o).startswith('raw:'):
            return 'object:' + self.desc(o)
        return self.pname(d['p']) if 'p' in d else enc_name(d['n'])

    def perform(self, e, f, res='', describe=None):
        if self.leftout(e):
            return {'r': 'left out'}
        del self.eff[:]
        self.armed = True
        try:
            value, obs = self.outcome(lambda: f(*[self.handles[e[k]] for k in 'xyzkv' if k in e]))
        finally:
            self.armed = False
        del obs['cons']
        obs['eff'] = list(self.eff)
        obs['val'] = 'None'
        if obs['r'] == 'error' and obs['arg'] == 'StopIteration':
            obs['r'], obs['arg'] = 'stop', ''
        if obs['r'] == 'ok':
            obs['val'] = describe(value) if describe else self.desc(value, res)
            if res:
                self.handles[res] = value
        return obs

    def op_bin(self, e):
        return self.perform(e, BIN[e['name']], e['res'])

    def op_inplace(self, e):
        return self.perform(e, INPLACE[e['name']], e['res'])

    def op_pow3(self, e):
        return self.perform(e, pow, e['res'])

    def op_cmp(self, e):
        return self.perform(e, CMP[e['name']], e['res'])

    def op_un(self, e):
        return self.perform(e, UNARY[e['name']], e['res'])

    def op_getitem(self, e):
        return self.perform(e, WAYS['getitem'][e.get('via', '')], e['res'])

    def op_setitem(self, e):
        return self.perform(e, WAYS['setitem'][e.get('via', '')])

    def op_delitem(self, e):
        return self.perform(e, WAYS['delitem'][e.get('via', '')])

    def op_contains(self, e):
        return self.perform(e, WAYS['contains'][e.get('via', '')])

    def op_len(self, e):
        return self.perform(e, WAYS['len'][e.get('via', '')])

    def op_hint(self, e):
        return self.perform(e, WAYS['hint'][e.get('via', '')])

    def op_call(self, e):
        def f(x):
            args = [self.handles[a] for a in e['args']]
            kw = {k: self.handles[a] for k, a in e.get('kw', {}).items()}
            return WAYS['call'][e.get('via', '')](x, args, kw)
        return self.perform(e, f, e['res'])

    def op_iter(self, e):
        return self.perform(e, WAYS['iter'][e.get('via', '')], e['res'])

    def op_next(self, e):
        return self.perform(e, WAYS['next'][e.get('via', '')], e['res'])

    def named(self, e, x):
        """The name as the object that is passed; what it pretends to be must
        not matter to a proxy."""
        name = dec(e['name'])
        if 'lie' in e and self.isproxy(x):
            lie = dec(e['as'])
            if e['lie'] == 'sub':
                return StrSub(name)
            if e['lie'] == 'raise':
                return RaisingName(name)
            name = LyingName(name)
            name.other, name.left = lie, int(e['lie'])
        return name

    def op_get(self, e):
        return self.perform(e, lambda x: WAYS['get'][e.get('via', '')](x, self.named(e, x)), e['res'])

    def op_set(self, e):
        return self.perform(e, lambda x, v: WAYS['set'][e.get('via', '')](x, self.named(e, x), v))

    def op_del(self, e):
        return self.perform(e, lambda x: WAYS['del'][e.get('via', '')](x, self.named(e, x)))

    def bare(self, e):
        return self.px.removeSecurityProxy(self.handles[e['x']])

    def op_hash(self, e):
        def describe(v):
            o = self.bare(e)
            if v == object.__hash__(o):
                return 'default:' + self.onames[id(o)]
            return self.desc(v)
        return self.perform(e, WAYS['hash'][e.get('via', '')], describe=describe)

    def op_bool(self, e):
        return self.perform(e, WAYS['bool'][e.get('via', '')])

    def text(self, e, f):
        def describe(v):
            o = self.bare(e)
            n = self.onames[id(o)]
            if type(v) is str:
                m = GENERIC.match(v)
                if m and m.group(1) == type(o).__name__:
                    return 'generic:' + n
                own = type.__repr__(o) if isinstance(o, type) else object.__repr__(o)
                if v == own:
                    return 'default:' + n
            return self.desc(v)
        return self.perform(e, f, describe=describe)

    def textway(self, e):
        # the ways differ for subclasses of str, but not for proxies
        given = self.isproxy(self.handles.get(e['x']))
        return WAYS[e['op']][e.get('via', '') if given else '']

    def op_str(self, e):
        return self.text(e, self.textway(e))

    def op_repr(self, e):
        return self.text(e, self.textway(e))

    def op_factory(self, e):
        if e['c'] == '':
            return self.perform(e, self.ck.ProxyFactory, e['res'])
        return self.perform(e, lambda x: self.ck.ProxyFactory(x, self.checkers[e['c']]), e['res'])

    def op_mkproxy(self, e):
        c = self.checkers[e['c']] if e['c'] else None
        return self.perform(e, lambda x: self.px.Proxy(x, c), e['res'])

    def op_remove(self, e):
        return self.perform(e, self.px.removeSecurityProxy, e['res'])

    def op_protect(self, e):
        c = self.checkers[e['c']]
        return self.perform(e, c.proxy, e['res'])

    def op_checkerof(self, e):
        if not self.leftout(e) and not self.isproxy(self.handles[e['x']]):
            # what the function does with anything else is not specified
            return {'r': 'error', 'arg': 'TypeError', 'asked': [], 'eff': [], 'val': 'None'}
        return self.perform(e, self.px.getChecker,
                            describe=lambda c: self.cknames.get(id(c), '?'))

    def op_liar(self, e):
        """An object whose __class__ says that it is a security proxy."""
        ck, px = self.ck, self.px
        d = {'__class__': property(lambda self: px.Proxy), '__slots__': ()}
        if e['own']:
            d['__Security_checker__'] = self.checkers[e['own']]
        o = type('Liar', (), d)()
        given = (self.checkers[e['c']],) if e['c'] else ()
        call, attr = ck.NamesChecker(['__call__']), ck.NamesChecker(['a'])
        try:
            v = {
                'factory': lambda: ck.ProxyFactory(o, *given),
                'proxy': lambda: px.Proxy(o, *given),
                'checker': lambda: call.proxy(o),
                'call': lambda: px.Proxy(lambda: o, call)(),
                'attr': lambda: px.Proxy(types.SimpleNamespace(a=o), attr).a,
                'item': lambda: ck.ProxyFactory([o])[0],
                'remove': lambda: px.removeSecurityProxy(o),
            }[e['how']]()
        except Exception as ex:
            return {'r': 'error', 'ck': type(ex).__name__}
        if v is o:
            return {'r': 'raw', 'ck': ''}
        if not self.isproxy(v) or px.removeSecurityProxy(v) is not o:
            return {'r': 'other', 'ck': ''}
        return {'r': 'proxied', 'ck': self.cknames.get(id(px.getChecker(v)), '?')}

    def op_inside(self, e):
        """Read the proxy's own slot from code that calls the proxy `self`."""
        slot = e['slot']

        def f(self):
            return getattr(self, slot) if e['how'] == 'getattr' else eval('self.' + slot)
        return self.perform(e, f, describe=lambda v: 'raw' if not self.isproxy(v) else 'proxy')

    def op_isa(self, e):
        cls = type(self.objs[e['o']])

        def isa(x):
            self.armed = 'all'      # nothing but the class matters
            return self.px.isinstance(x, cls)
        return self.perform(e, isa)

    # ---- attempts by other means
    def op_probe(self, e):
        if self.leftout(e):
            return {'r': 'left out'}
        x = self.handles[e['x']]
        o = self.onames[id(self.px.removeSecurityProxy(x))]
        del self.eff[:]
        del self.asked[:]
        items = {k: list(v) for k, v in self.items.items()}
        try:
            v = PROBES[e['how']](x)
        except Exception:
            res = 'none'
        else:
            res = self.judge(v, 0)
        self.items = items
        called = sorted({m.split('(')[0][len(o) + 1:] for m in self.eff if m.startswith(o + '.')})
        return {'called': called, 'res': res}

    def op_attack(self, e):
        if self.leftout(e):
            return {'r': 'left out'}
        x = self.handles[e['x']]
        px = self.px
        o, c, t = px.removeSecurityProxy(x), px.getChecker(x), type(x)
        before = dict(vars(o))
        items = {k: list(v) for k, v in self.items.items()}
        other = _Other()
        try:
            v = ATTACKS[e['how']](x, other, self.ck.NamesChecker(('a', '__call__')), px)
        except Exception:
            res = 'none'
        else:
            res = 'raw' if v is o or v is c else self.judge(v, 0)
        kept = px.removeSecurityProxy(x) is o and px.getChecker(x) is c and type(x) is t
        if not kept and t is px.Proxy and self.impl == 'py':
            # as it was, for what follows
            object.__setattr__(x, '_wrapped', o)
            object.__setattr__(x, '_checker', c)
        now = vars(o)
        now.clear()
        now.update(before)
        self.items = items
        return {'kept': 'yes' if kept else 'no', 'res': res}

    def judge(self, v, depth):
        if self.isproxy(v):
            return 'proxy'
        if id(v) in self.onames:
            return 'raw'
        if depth < 3 and type(v) in (list, tuple, set, frozenset, dict):
            for item in list(v) + (list(v.values()) if type(v) is dict else []):
                if self.judge(item, depth + 1) == 'raw':
                    return 'raw'
        return 'rock'


# ---- ways to do the same
_O, _N = ctypes.py_object, ctypes.c_ssize_t


def _api(name, *types, res=ctypes.py_object):
    f = ctypes.PYFUNCTYPE(res, *types)((name, ctypes.pythonapi))

    def call(*args):
        # ready made: else ctypes would look for attributes of the objects
        r = f(*[_O(a) if t is _O else a for t, a in zip(types, args)])
        return None if res is ctypes.c_int else r
    return call


_sq_get = _api('PySequence_GetItem', _O, _N)
_sq_set = _api('PySequence_SetItem', _O, _N, _O, res=ctypes.c_int)
_sq_del = _api('PySequence_DelItem', _O, _N, res=ctypes.c_int)
_call_dict = _api('PyObject_Call', _O, _O, _O)
_call_obj = _api('PyObject_CallObject', _O, _O)


def _number(k):
    return type(k) is int and k >= 0


def _truth(x):
    if x:
        return True
    return False


WAYS = {
    'getitem': {
        '': operator.getitem,
        'sq': lambda x, k: _sq_get(x, k) if _number(k) else x[k],
        'dot': lambda x, k: x[k],
        'getter': lambda x, k: operator.itemgetter(k)(x),
    },
    'setitem': {
        '': operator.setitem,
        'sq': lambda x, k, v: _sq_set(x, k, v) if _number(k) else operator.setitem(x, k, v),
    },
    'delitem': {
        '': operator.delitem,
        'sq': lambda x, k: _sq_del(x, k) if _number(k) else operator.delitem(x, k),
    },
    'contains': {'': operator.contains, 'in': lambda x, v: v in x, 'notin': lambda x, v: not (v not in x)},
    'len': {
        '': len,
        'sq': _api('PySequence_Size', _O, res=_N),
        'mp': _api('PyMapping_Size', _O, res=_N),
        'object': _api('PyObject_Size', _O, res=_N),
    },
    'hint': {'': operator.length_hint},
    'call': {
        '': lambda x, args, kw: x(*args, **kw),
        'object': lambda x, args, kw: _call_dict(x, tuple(args), kw),
        'args': lambda x, args, kw: _call_obj(x, tuple(args)) if not kw else x(*args, **kw),
        'partial': lambda x, args, kw: functools.partial(lambda y, *a, **k: y(*a, **k), x, *args)(**kw),
    },
    'get': {
        '': getattr,
        'slot': lambda x, n: type(x).__getattribute__(x, n),
        'getter': lambda x, n: operator.attrgetter(n)(x),
    },
    'set': {'': setattr, 'slot': lambda x, n, v: type(x).__setattr__(x, n, v)},
    'del': {'': delattr, 'slot': lambda x, n: type(x).__delattr__(x, n)},
    'iter': {'': iter, 'api': _api('PyObject_GetIter', _O)},
    'next': {'': next},
    'hash': {'': hash, 'op': _api('PyObject_Hash', _O, res=_N)},
    'bool': {
        '': bool, 'if': _truth, 'not': lambda x: not (not x), 'truth': operator.truth,
    },
    'str': {'': str, 'fmt': lambda x: '%s' % (x,), 'conv': lambda x: f'{x!s}', 'print': lambda x: _printed(x),
            'call': lambda x: ''.join(map(str, [x]))},
    'repr': {'': repr, 'fmt': lambda x: '%r' % (x,), 'conv': lambda x: f'{x!r}',
             'list': lambda x: repr([x])[1:-1]},
}


def _printed(x):
    f = io.StringIO()
    print(x, end='', file=f)
    return f.getvalue()


def _with(x):
    with x as y:
        return y


def _unpack(x):
    a, *b = x
    return [a] + b


def _match(x):
    match x:
        case {'a': y}:
            return y
        case [y, *rest]:
            return y
    return None


def _await(x):
    async def f():
        return await x
    c = f()
    try:
        c.send(None)
    except StopIteration as s:
        return s.value
    finally:
        c.close()


class _Other:
    a = 1


def _lying(name, left, other='a'):
    name = LyingName(name)
    name.other, name.left = other, left
    return name


def _liar(slot, left, how):
    n = lambda: _lying('_' + slot, left)
    return {
        'get': lambda x, o, c, px: getattr(x, n()),
        'tget': lambda x, o, c, px: type(x).__getattribute__(x, n()),
        'set': lambda x, o, c, px: setattr(x, n(), o if slot == 'wrapped' else c),
        'tset': lambda x, o, c, px: type(x).__setattr__(x, n(), o if slot == 'wrapped' else c),
        'del': lambda x, o, c, px: delattr(x, n()),
    }[how]


ATTACKS = {
    'init': lambda x, o, c, px: type(x).__init__(x, o, c),
    'init1': lambda x, o, c, px: type(x).__init__(x, x, c),
    'initkw': lambda x, o, c, px: type(x).__init__(x, value=o, checker=c),
    'initnone': lambda x, o, c, px: type(x).__init__(x, o, None),
    'init0': lambda x, o, c, px: type(x).__init__(x),
    'ainit': lambda x, o, c, px: x.__init__(o, c),
    'again': lambda x, o, c, px: type(x)(x, c),
    'anew': lambda x, o, c, px: x.__new__(x, o, c),
    'new': lambda x, o, c, px: type(x).__new__(type(x), o, None),
    'setattr': lambda x, o, c, px: setattr(x, '_wrapped', o),
    'setchecker': lambda x, o, c, px: setattr(x, '_checker', c),
    'tsetattr': lambda x, o, c, px: type(x).__setattr__(x, '_wrapped', o),
    'tsetchecker': lambda x, o, c, px: type(x).__setattr__(x, '_checker', c),
    'asetattr': lambda x, o, c, px: x.__setattr__('_wrapped', o),
    'asetchecker': lambda x, o, c, px: x.__setattr__('_checker', c),
    'delattr': lambda x, o, c, px: delattr(x, '_wrapped'),
    'delchecker': lambda x, o, c, px: delattr(x, '_checker'),
    'tdelattr': lambda x, o, c, px: type(x).__delattr__(x, '_wrapped'),
    'tdelchecker': lambda x, o, c, px: type(x).__delattr__(x, '_checker'),
    'adelattr': lambda x, o, c, px: x.__delattr__('_checker'),
    'getattr': lambda x, o, c, px: getattr(x, '_wrapped'),
    'getchecker': lambda x, o, c, px: getattr(x, '_checker'),
    'tgetattr': lambda x, o, c, px: type(x).__getattribute__(x, '_wrapped'),
    'tgetchecker': lambda x, o, c, px: type(x).__getattribute__(x, '_checker'),
    'tgetattr2': lambda x, o, c, px: type(x).__getattr__(x, '_wrapped'),
    'agetattr': lambda x, o, c, px: x.__getattribute__('_wrapped'),
    'agetattr2': lambda x, o, c, px: x.__getattr__('_checker'),
    'setstate': lambda x, o, c, px: x.__setstate__({'_wrapped': o, '_checker': c}),
    'tsetstate': lambda x, o, c, px: type(x).__setstate__(x, (None, {'_wrapped': o, '_checker': c})),
    'getstate': lambda x, o, c, px: x.__getstate__(),
    'reduce': lambda x, o, c, px: x.__reduce__(),
    'reduce_ex': lambda x, o, c, px: x.__reduce_ex__(2),
    'copy': lambda x, o, c, px: copy.copy(x),
    'class': lambda x, o, c, px: setattr(x, '__class__', _Other),
    'tclass': lambda x, o, c, px: type(x).__setattr__(x, '__class__', _Other),
    'oclass': lambda x, o, c, px: object.__setattr__(x, '__class__', type(x)),
    'dict': lambda x, o, c, px: x.__dict__.update(_wrapped=o, _checker=c),
    'vars': lambda x, o, c, px: vars(x),
    'slots': lambda x, o, c, px: [getattr(x, n) for n in x.__slots__],
    'seccheck': lambda x, o, c, px: setattr(x, '__Security_checker__', c),
    'factory': lambda x, o, c, px: px.Proxy(x, c) and None,
    'testitems': lambda x, o, c, px: px.getTestProxyItems(x) and None,
    'isinst': lambda x, o, c, px: px.isinstance(x, _Other),
    'dir': lambda x, o, c, px: dir(x),
    'call': lambda x, o, c, px: x(o, c) and None,
}
LIARS = {'lie-%s-%s-%d' % (slot, how, left): _liar(slot, left, how)
         for slot in ('wrapped', 'checker') for how in ('get', 'tget', 'set', 'tset', 'del') for left in (1, 2, 3, 99)}
ATTACKS.update(LIARS)


PROBES = {
    'matmul': lambda x: x @ 1,
    'rmatmul': lambda x: 1 @ x,
    'imatmul': lambda x: operator.imatmul(x, 1),
    'round': round,
    'round2': lambda x: round(x, 2),
    'floor': math.floor,
    'ceil': math.ceil,
    'trunc': math.trunc,
    'reversed': lambda x: reversed(x),
    'bytes': bytes,
    'format': lambda x: format(x, ''),
    'format2': lambda x: format(x, 'x'),
    'fstr': lambda x: f'{x}',
    'fspath': lambda x: __import__('os').fspath(x),
    'with': _with,
    'await': _await,
    'aiter': lambda x: aiter(x),
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'pickle': lambda x: pickle.dumps(x, 2),
    'dir': dir,
    'vars': vars,
    'memoryview': memoryview,
    'complex': complex,
    'list': list,
    'tuple': tuple,
    'dict': dict,
    'sorted': lambda x: sorted([x, x]),
    'sum': lambda x: sum([x], 1),
    'unpack': _unpack,
    'star': lambda x: [*x],
    'match': _match,
    'slice': lambda x: [1, 2, 3][x],
    'chr': chr,
    'range': range,
    'isinstance': lambda x: isinstance(x, int),
    'issubclass': lambda x: issubclass(x, int),
    'callable': callable,
    'iterget': lambda x: operator.itemgetter(0)(x),
    'attrget': lambda x: operator.attrgetter('a')(x),
    'concat': lambda x: operator.concat(x, [1]),
    'iconcat': lambda x: operator.iconcat(x, [1]),
    'rconcat': lambda x: [1] + x,
    'extend': lambda x: [1].extend(x),
    'repeat': lambda x: [1] * x,
    'join': lambda x: ''.join(x),
    'indexof': lambda x: operator.indexOf(x, 1),
    'countof': lambda x: operator.countOf(x, 1),
    'weakref': lambda x: __import__('weakref').ref(x),
    'set': set,
    'zip': lambda x: list(zip(x)),
    'map': lambda x: list(map(lambda y: y, x)),
    'strmod': lambda x: '%s' % x,
    'strmodd': lambda x: '%d' % x,
    'strmap': lambda x: '%(a)s' % x,
    'fmtattr': lambda x: '{0.a}'.format(x),
    'fmtitem': lambda x: '{0[0]}'.format(x),
    'getattrdefault': lambda x: getattr(x, 'a', None),
    'hasattr': lambda x: hasattr(x, 'a'),
    'divmodr': lambda x: divmod(1, x),
    'pow3a': lambda x: pow(x, 2, 3),
    'pow3b': lambda x: pow(2, x, 3),
    'pow3c': lambda x: pow(2, 3, x),
    'intbase': lambda x: int('11', x),
    'float': float,
    'bool': bool,
    'slicing': lambda x: x[1:2],
    'slicing2': lambda x: operator.setitem(x, slice(1, 2), [1]),
    'slicing3': lambda x: operator.delitem(x, slice(1, 2)),
    'next2': lambda x: next(x, None),
    'iter2': lambda x: iter(x, None),
    'max': lambda x: max(x),
    'any': any,
    'all': all,
    'enumerate': lambda x: list(enumerate(x)),
    'print': lambda x: str([x]),
    'exec': lambda x: exec('1', x),
    'kwcall': lambda x: (lambda **kw: kw)(**x),
    'poscall': lambda x: (lambda *a: a)(*x),
    'rcontains': lambda x: x in [1, 2],
    'dictget': lambda x: {1: 2}.get(x),
    'type3': lambda x: type('X', (x,), {}),
    'raise': lambda x: (_ for _ in ()).throw(x),
    'yieldfrom': lambda x: list((lambda: (yield from x))()),
    'sizeof': lambda x: __import__('sys').getsizeof(x),
    'setclass': lambda x: setattr(x, '__class__', int),
    'hashin': lambda x: {x: 1},
}


if __name__ == '__main__':
    drvlib.main(ProxyingDriver)
