"""Driver for spec/Lifetime.tla."""
import bisect
import copy
import ctypes
import gc
import itertools
import math
import operator
import pickle
import sys
import weakref

import drvlib
from drv_checkers import Boom, CheckersDriver, Interaction, PolicyError

REPS = 40


class Node:
    """An object of the graph."""

    def __call__(self, *args):
        return args[0] if args else self


TYPES = {'T%d' % i: type('T%d' % i, (Node,), {}) for i in range(3)}


class Refusing:
    participations = ()

    def add(self, p):
        pass

    remove = add

    def checkPermission(self, permission, object):
        return False


# ------------------------------------------------------- repeated operations

class Perm:
    pass


DUNDERS = ('add sub mul mod divmod pow lshift rshift and xor or floordiv truediv matmul').split()


class Thing:
    """Supports every operation; what they give is up to `ret'."""
    ret = None

    def __getattr__(self, name):
        raise AttributeError(name)

    def __hash__(self):
        return id(type(self)) & 0xffff


class Text(str):
    pass


def give(self, *args, **kw):
    r = type(self).ret
    if r is Boom:
        raise Boom()
    if r is Ellipsis:                    # something new each time
        return Thing()
    return r


for _n in DUNDERS:
    for _p in ('', 'r', 'i'):
        setattr(Thing, '__%s%s__' % (_p, _n), give)
for _n in ('neg pos abs invert int float index complex round trunc len length_hint getitem setitem delitem contains '
           'iter next call reversed format bytes lt le gt ge eq ne str repr bool enter exit copy deepcopy').split():
    setattr(Thing, '__%s__' % _n, give)
Thing.method = give
NAMES = ['__%s%s__' % (p, n) for n in DUNDERS for p in ('', 'r', 'i')] + \
    [n for n in dir(Thing) if n.startswith('__') and n not in ('__class__', '__dict__', '__weakref__')] + \
    ['attr', 'method', 'missing', '__len__', '__getattr__']


def api(name, *types, res=ctypes.py_object):
    f = ctypes.PYFUNCTYPE(res, *types)((name, ctypes.pythonapi))
    return lambda *args: f(*[ctypes.py_object(a) if t is ctypes.py_object else a for t, a in zip(types, args)])


def operations(ck, px, mg):
    count = itertools.count(1000)
    B = {n: getattr(operator, n) for n in 'add sub mul mod pow lshift rshift xor floordiv truediv matmul'.split()}
    B.update({'and': operator.and_, 'or': operator.or_, 'divmod': divmod})
    ops = {}
    for n, f in B.items():
        ops[n] = lambda e, f=f: f(e.p, e.a)
        ops['r' + n] = lambda e, f=f: f(e.a, e.p)
        ops[n + '2'] = lambda e, f=f: f(e.p, e.q)
        ops[n + '.i'] = lambda e, f=f: f(e.p, 7)
        ops['r' + n + '.i'] = lambda e, f=f: f(7, e.p)
    for n in 'add sub mul mod pow lshift rshift xor floordiv truediv matmul and or'.split():
        f = getattr(operator, 'i' + n)
        ops['i' + n] = lambda e, f=f: f(e.p, e.a)
        ops['i' + n + '2'] = lambda e, f=f: f(e.p, e.q)
        ops['i' + n + '.r'] = lambda e, f=f: f(e.a, e.p)
    for n in 'lt le eq ne gt ge'.split():
        f = getattr(operator, n)
        ops[n] = lambda e, f=f: f(e.p, e.a)
        ops['r' + n] = lambda e, f=f: f(e.a, e.p)
        ops[n + '2'] = lambda e, f=f: f(e.p, e.q)
    U = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'invert': operator.invert, 'int': int, 'float': float,
         'index': operator.index, 'complex': complex, 'round': round, 'trunc': math.trunc, 'len': len, 'bool': bool,
         'hash': hash, 'str': str, 'repr': repr, 'format': format, 'bytes': bytes, 'iter': iter, 'next': next,
         'list': list, 'reversed': reversed, 'hint': operator.length_hint, 'dir': dir, 'copy': copy.copy,
         'deepcopy': copy.deepcopy, 'pickle': pickle.dumps, 'call': operator.call, 'not': operator.not_}
    for n, f in U.items():
        ops[n] = lambda e, f=f: f(e.p)
    ops.update({
        'pow3': lambda e: pow(e.p, e.a, e.b), 'pow3.2': lambda e: pow(e.a, e.p, e.b),
        'pow3.3': lambda e: pow(e.a, e.b, e.p), 'pow3.0': lambda e: pow(e.p, e.a, None), 'pow3.i': lambda e: pow(7, e.p, 5),
        'pow3.p': lambda e: pow(e.p, e.q, e.p),
        'getattr': lambda e: e.p.attr, 'getattr2': lambda e: getattr(e.p, e.name), 'missing': lambda e: e.p.missing,
        'method': lambda e: e.p.method(e.a, k=e.b), 'getattr.n': lambda e: getattr(e.p, 'at' + chr(0x436)),
        'default': lambda e: getattr(e.p, 'missing', e.a),
        'dict': lambda e: e.p.__dict__, 'class': lambda e: e.p.__class__, 'setclass': lambda e: setattr(e.p, '__class__', Perm),
        'setattr': lambda e: setattr(e.p, 'attr', e.a), 'setattr2': lambda e: setattr(e.p, e.name, e.a),
        'delattr': lambda e: delattr(e.p, 'attr'), 'delattr2': lambda e: delattr(e.p, e.name),
        # a name that is made for the call
        'getattr.new': lambda e: getattr(e.p, 'n%d' % next(count)), 'check.new': lambda e: e.c.check(e.a, 'n%d' % next(count)),
        'check_setattr.new': lambda e: e.c.check_setattr(e.a, 'n%d' % next(count)),
        'setslot': lambda e: setattr(e.p, 'missing', e.a),
        'call2': lambda e: e.p(e.a, e.b, k=e.a, **{e.name: e.b}),
        'getitem': lambda e: e.p[e.a], 'getitem.i': lambda e: e.p[0], 'getitem.n': lambda e: e.p[-1],
        'getslice': lambda e: e.p[0:2], 'getslice2': lambda e: e.p[e.a:e.b],
        'setitem': lambda e: operator.setitem(e.p, e.a, e.b), 'setitem.i': lambda e: operator.setitem(e.p, 1, e.b),
        'setslice': lambda e: operator.setitem(e.p, slice(0, 2), e.b),
        'delitem': lambda e: operator.delitem(e.p, e.a), 'delitem.i': lambda e: operator.delitem(e.p, 1),
        'delslice': lambda e: operator.delitem(e.p, slice(0, 2)),
        'contains': lambda e: e.a in e.p, 'contains2': lambda e: e.p in e.p,
        'isinstance': lambda e: isinstance(e.p, Thing), 'isinstance2': lambda e: isinstance(e.a, e.p),
        'issubclass': lambda e: issubclass(e.p, Thing), 'unpack': lambda e: [*e.p], 'in': lambda e: e.p in [e.a],
        'with': lambda e: e.p.__enter__(), 'mod': lambda e: '%s %r' % (e.p, e.p),
        'length_hint': lambda e: e.p.__length_hint__(), 'index2': lambda e: [1, 2, 3][e.p], 'sum': lambda e: sum([e.p, e.p]),
        'reduce': lambda e: e.p.__reduce_ex__(2), 'sizeof': lambda e: sys.getsizeof(e.p),
        # making proxies
        'Proxy': lambda e: px.Proxy(e.a, e.c), 'Proxy.kw': lambda e: px.Proxy(object=e.a, checker=e.c),
        'Proxy.none': lambda e: px.Proxy(e.a, None), 'Proxy.0': lambda e: px.Proxy(), 'Proxy.1': lambda e: px.Proxy(e.a),
        'Proxy.3': lambda e: px.Proxy(e.a, e.c, e.b), 'Proxy.2': lambda e: px.Proxy(e.p, e.c),
        'Proxy.bad': lambda e: px.Proxy(e.a, nosuch=e.c),
        'again': lambda e: type(e.p).__init__(e.p, e.a, e.c), 'new': lambda e: type(e.p).__new__(type(e.p), e.a, e.c),
        'type': lambda e: type(e.p), 'getChecker': lambda e: px.getChecker(e.p), 'getChecker.no': lambda e: px.getChecker(e.a),
        'getObject': lambda e: px.getObject(e.p), 'getObject.no': lambda e: px.getObject(e.a),
        'remove': lambda e: px.removeSecurityProxy(e.p), 'remove.no': lambda e: px.removeSecurityProxy(e.a),
        'items': lambda e: px.getTestProxyItems(e.p), 'pisinstance': lambda e: px.isinstance(e.p, Thing),
        'Factory': lambda e: ck.ProxyFactory(e.a), 'Factory.p': lambda e: ck.ProxyFactory(e.p),
        'Factory.c': lambda e: ck.ProxyFactory(e.a, e.c), 'Factory.pc': lambda e: ck.ProxyFactory(e.p, e.c),
        'Factory.rock': lambda e: ck.ProxyFactory(5), 'Factory.exc': lambda e: ck.ProxyFactory(Boom()),
        # making checkers
        'Checker': lambda e: ck.Checker({'a': e.a}), 'Checker.2': lambda e: ck.Checker({'a': e.a}, {'b': e.b}),
        'Checker.kw': lambda e: ck.Checker(get_permissions=e.get, set_permissions=e.set),
        'Checker.no': lambda e: ck.Checker(e.a), 'Checker.no2': lambda e: ck.Checker(e.get, e.a), 'Checker.0': lambda e: ck.Checker(),
        'Checker.again': lambda e: ck.Checker.__init__(e.own, {'c': e.a}, {'d': e.b}),
        'Checker.again1': lambda e: ck.Checker.__init__(e.own, {'c': e.a}),
        'Checker.again.no': lambda e: ck.Checker.__init__(e.own, e.a),
        'Combined': lambda e: ck.CombinedChecker(e.c, e.own), 'Combined.no': lambda e: ck.CombinedChecker(e.a, e.b),
        'Names': lambda e: ck.NamesChecker(['a', 'b'], e.a), 'Multi': lambda e: ck.MultiChecker([(('a', 'b'), e.a), {'c': e.b}]),
        # questions to a checker
        'check': lambda e: e.c.check(e.a, 'attr'), 'check2': lambda e: e.c.check(e.a, e.name),
        'check_getattr': lambda e: e.c.check_getattr(e.a, 'attr'), 'check_setattr': lambda e: e.c.check_setattr(e.a, 'attr'),
        'check_setattr2': lambda e: e.c.check_setattr(e.a, e.name), 'check.no': lambda e: e.c.check(e.a),
        'check.class': lambda e: e.c.check(e.a, '__class__'), 'check.iter': lambda e: e.c.check(e.a, '__iter__'),
        'check_setattr.no': lambda e: e.c.check_setattr(e.a), 'check.int': lambda e: e.c.check(e.a, 5),
        'check.list': lambda e: e.c.check(e.a, []), 'check_setattr.list': lambda e: e.c.check_setattr(e.a, []),
        'permission_id': lambda e: e.c.permission_id('attr'), 'permission_id2': lambda e: e.c.permission_id(e.name),
        'permission_id.list': lambda e: e.c.permission_id([]),
        'setattr_permission_id': lambda e: e.c.setattr_permission_id('attr'),
        'setattr_permission_id2': lambda e: e.c.setattr_permission_id(e.name),
        'get_permissions': lambda e: (e.c.get_permissions, e.c.set_permissions),
        'set_get_permissions': lambda e: setattr(e.c, 'get_permissions', {}),
        'cproxy': lambda e: e.c.proxy(e.a), 'cproxy.p': lambda e: e.c.proxy(e.p), 'cproxy.rock': lambda e: e.c.proxy(5),
        'cproxy.own': lambda e: e.c.proxy(e.withown), 'cproxy.none': lambda e: e.c.proxy(e.withnone),
        'cproxy.fails': lambda e: e.c.proxy(e.withfail), 'cproxy.exc': lambda e: e.c.proxy(Boom()), 'cproxy.list': lambda e: e.c.proxy([e.a]),
        'cproxy.nocheck': lambda e: e.c.proxy(e.unproxied),
        'cgetitem': lambda e: e.c[e.a], 'csetitem': lambda e: operator.setitem(e.c, e.a, 'attr'),
        'clen': lambda e: len(e.c), 'cdel': lambda e: operator.delitem(e.c, 'attr'),
        'select': lambda e: ck.selectChecker(e.a), 'select.exc': lambda e: ck.selectChecker(Boom()),
        'select.fun': lambda e: ck.selectChecker(e.selected), 'select.none': lambda e: ck.selectChecker(e.unproxied),
        'getCheckerForInstancesOf': lambda e: ck.getCheckerForInstancesOf(Thing),
        'canAccess': lambda e: ck.canAccess(e.p, 'attr'), 'canWrite': lambda e: ck.canWrite(e.p, 'attr'),
        'canAccess.m': lambda e: ck.canAccess(e.p, 'missing'), 'canWrite.m': lambda e: ck.canWrite(e.p, 'missing'),
        'checkPermission': lambda e: mg.checkPermission(e.perm, e.a),
        'define': lambda e: (ck.defineChecker(e.fresh, e.c), ck.undefineChecker(e.fresh)),
        'define.twice': lambda e: ck.defineChecker(e.seltype, e.c),
    })
    # by the C API; numbers large enough to be made for the call
    O, N, S, I, B = ctypes.py_object, ctypes.c_ssize_t, ctypes.c_char_p, 1234567, ctypes.c_int
    sq_get, sq_set, sq_del = api('PySequence_GetItem', O, N), api('PySequence_SetItem', O, N, O, res=B), \
        api('PySequence_DelItem', O, N, res=B)
    sq_len, mp_len = api('PySequence_Size', O, res=N), api('PyMapping_Size', O, res=N)
    sq_rep, sq_irep = api('PySequence_Repeat', O, N), api('PySequence_InPlaceRepeat', O, N)
    sq_cat, sq_icat = api('PySequence_Concat', O, O), api('PySequence_InPlaceConcat', O, O)
    sq_sl, sq_ssl, sq_dsl = api('PySequence_GetSlice', O, N, N), api('PySequence_SetSlice', O, N, N, O, res=B), \
        api('PySequence_DelSlice', O, N, N, res=B)
    mp_get, mp_set, mp_has = api('PyMapping_GetItemString', O, S), api('PyMapping_SetItemString', O, S, O, res=B), \
        api('PyMapping_HasKeyString', O, S, res=B)
    get_s, set_s, has_s = api('PyObject_GetAttrString', O, S), api('PyObject_SetAttrString', O, S, O, res=B), \
        api('PyObject_HasAttrString', O, S, res=B)
    ops.update({
        'sq.get': lambda e: sq_get(e.p, I), 'sq.get.n': lambda e: sq_get(e.p, -I), 'sq.set': lambda e: sq_set(e.p, I, e.a),
        'sq.set.n': lambda e: sq_set(e.p, -I, e.a), 'sq.del': lambda e: sq_del(e.p, I), 'sq.del.n': lambda e: sq_del(e.p, -I),
        'sq.len': lambda e: sq_len(e.p), 'mp.len': lambda e: mp_len(e.p), 'sq.rep': lambda e: sq_rep(e.p, I),
        'sq.irep': lambda e: sq_irep(e.p, I), 'sq.cat': lambda e: sq_cat(e.p, e.a), 'sq.cat2': lambda e: sq_cat(e.a, e.p),
        'sq.icat': lambda e: sq_icat(e.p, e.a), 'sq.slice': lambda e: sq_sl(e.p, I, I + 5),
        'sq.setslice': lambda e: sq_ssl(e.p, I, I + 5, e.a), 'sq.delslice': lambda e: sq_dsl(e.p, I, I + 5),
        'mp.get': lambda e: mp_get(e.p, b'some key'), 'mp.set': lambda e: mp_set(e.p, b'some key', e.a),
        'mp.has': lambda e: mp_has(e.p, b'some key'), 'get.s': lambda e: get_s(e.p, b'attr'),
        'get.m': lambda e: get_s(e.p, b'no such attribute'), 'set.s': lambda e: set_s(e.p, b'attr', e.a),
        'has.s': lambda e: has_s(e.p, b'attr'), 'has.m': lambda e: has_s(e.p, b'no such attribute'),
        'big.add': lambda e: e.p + (I * I), 'big.radd': lambda e: (I * I) + e.p, 'big.iadd': lambda e: operator.iadd(e.p, I * I),
        'big.item': lambda e: e.p[I * I], 'big.cmp': lambda e: e.p < I * I, 'big.call': lambda e: e.p(I * I, k=I * I),
        'big.pow': lambda e: pow(e.p, I * I, I * I), 'big.in': lambda e: (I * I) in e.p, 'reversed.l': lambda e: list(itertools.islice(reversed(e.p), 3)),
        'tuple.add': lambda e: (e.a,) + e.p, 'zip': lambda e: list(itertools.islice(zip(e.p, e.p), 3)), 'dict.up': lambda e: {}.update(e.p),
        'join': lambda e: ''.join(e.p), 'map': lambda e: list(itertools.islice(map(len, e.p), 3)), 'bisect': lambda e: bisect.bisect(e.p, e.a),
        'int.big': lambda e: int(e.p) + I, 'divmod.big': lambda e: divmod(e.p, I * I),
    })
    return ops


class Env:
    pass


class LifetimeDriver(CheckersDriver):
    risky = True
    h = {}

    def __init__(self, impl):
        super().__init__(impl)
        import zope.component.interface      # noqa: so that nothing is imported later
        self.ops = operations(self.ck, self.px, self.mg)
        self.plainchecker = self.ck.Checker
        gc.collect()
        gc.disable()

    def reset(self, ev):
        super().reset(ev)
        self.h.clear()
        for t in TYPES.values():
            self.ck._checkers.pop(t, None)
        self.h, self.wr, self.pid = {}, {}, {}
        self.mg.setSecurityPolicy(lambda *p: Refusing())
        self.mg.newInteraction()
        gc.collect()
        gc.freeze()

    def census(self):
        np, nc, ids = 0, 1, set()
        P, C = self.px.Proxy, self.plainchecker
        for x in gc.get_objects():
            t = type(x)
            if issubclass(t, P):
                np += 1
                ids.add(id(x))
            elif issubclass(t, C):
                nc += 1
        return np, nc, ids

    def seen(self, obs):
        np, nc, ids = self.census()
        obs.update(alive=sorted(n for n, r in self.wr.items() if r() is not None), np=str(np), nc=str(nc))
        return obs

    def call(self, f):
        """How it ended and what it gave."""
        try:
            return 'ok', f(), None
        except self.ifc.Unauthorized as e:
            return 'unauth', None, e.with_traceback(None)
        except self.ifc.ForbiddenAttribute as e:
            return 'forbid', None, e.with_traceback(None)
        except AttributeError:
            return 'missing', None, None

    def strip(self, exc):
        """Leaves of an exception what the package puts in."""
        exc.__context__ = exc.__cause__ = None
        if hasattr(exc, 'obj'):          # the interpreter's note
            exc.obj = None

    def give(self, e, f):
        before = self.census()[2]
        r, v, exc = self.call(f)
        obs = {'r': r}
        if exc is not None and e.get('err'):
            self.strip(exc)
            self.h[e['err']] = exc
        exc = None
        if r == 'ok':
            if not issubclass(type(v), self.px.Proxy):
                obs['arg'] = 'raw'
            elif id(v) in before:
                obs['arg'] = n = self.pid[id(v)]
                self.h[n] = v
            else:
                obs['arg'] = 'new'
                self.pid[id(v)] = e['res']
                self.h[e['res']] = v
        v = None
        return self.seen(obs)

    def new(self, e, v):
        self.h[e['id']] = v
        self.pid[id(v)] = e['id']
        return self.seen({'r': 'done'})

    def usable(self, e):
        names = [e[f] for f in ('n', 'to', 'of', 'c', 'get', 'set', 'a', 'b', 'p') if e.get(f)] + list(e.get('args', ()))
        return all(n in self.h or n == 'DEFAULT' for n in names)

    def __getattribute__(self, name):
        f = object.__getattribute__(self, name)
        if not name.startswith('op_'):
            return f

        def call(e):
            if not self.usable(e) or e['op'] == 'undefine' and TYPES[e['type']] not in self.ck._checkers:
                e.clear()
                e['op'] = 'nop'
                return self.seen({'r': 'done'})
            return f(e)
        return call

    # -- calls
    def op_nop(self, e):
        return self.seen({'r': 'done'})

    def op_obj(self, e):
        v = TYPES[e['type']]()
        self.wr[e['id']] = weakref.ref(v)
        return self.new(e, v)

    def op_table(self, e):
        return self.new(e, {n: self.ck.CheckerPublic for n in e['grant']})

    def op_std(self, e):
        return self.new(e, self.checker_class(e.get('how'))(self.h[e['get']], self.h[e['set']]))

    def op_comb(self, e):
        return self.new(e, self.ck.CombinedChecker(self.h[e['a']], self.h[e['b']]))

    def op_proxy(self, e):
        return self.new(e, self.px.Proxy(self.h[e['of']], self.h[e['c']]))

    def op_factory(self, e):
        return self.give(e, lambda: self.ck.ProxyFactory(self.h[e['of']]))

    def op_link(self, e):
        n = self.h[e['n']]
        if type(n) is dict:
            n[e['slot']] = self.h[e['to']]
        else:
            setattr(n, e['slot'], self.h[e['to']])
        n = None
        return self.seen({'r': 'done'})

    def op_unlink(self, e):
        n = self.h[e['n']]
        if type(n) is dict:
            n.pop(e['slot'], None)
        else:
            n.__dict__.pop(e['slot'], None)
        n = None
        return self.seen({'r': 'done'})


    def op_drop(self, e):
        del self.h[e['n']]
        return self.seen({'r': 'done'})

    def op_define(self, e):
        t = TYPES[e['type']]
        if t in self.ck._checkers:
            self.ck.undefineChecker(t)
        self.ck.defineChecker(t, self.h[e['c']])
        return self.seen({'r': 'done'})

    def op_undefine(self, e):
        self.ck.undefineChecker(TYPES[e['type']])
        return self.seen({'r': 'done'})

    def op_inside(self, e):
        f = self.px.getChecker if e['slot'] == 'checker' else self.px.removeSecurityProxy
        v = f(self.h[e['p']])
        n = [n for n, r in self.wr.items() if r() is v] or [self.pid.get(id(v), '?')]
        obs = {'r': 'ok', 'arg': n[0]}
        if n[0] != '?':
            self.h[n[0]] = v
        v = None
        return self.seen(obs)

    def op_read(self, e):
        return self.give(e, lambda: getattr(self.h[e['p']], e['name']))

    def op_call(self, e):
        return self.give(e, lambda: self.h[e['p']](*[self.h[a] for a in e['args']]))

    def op_write(self, e):
        p = self.h[e['p']]
        if e['to']:
            r, _v, exc = self.call(lambda: setattr(p, e['name'], self.h[e['to']]))
        else:
            r, _v, exc = self.call(lambda: delattr(p, e['name']))
        if exc is not None and e['err']:
            self.strip(exc)
            self.h[e['err']] = exc
        p = exc = None
        return self.seen({'r': 'done' if r == 'ok' else r})

    def op_gc(self, e):
        gc.collect()
        return self.seen({'r': 'done'})

    # -- operations repeated many times
    def environment(self, mode, ret):
        ck, px = self.ck, self.px
        e = Env()

        class T(Thing):
            pass

        class Selected(Thing):
            pass

        class Unproxied(Thing):
            pass

        class Fresh:
            pass

        class Fails(Thing):
            @property
            def __Security_checker__(self):
                raise Boom()

        class Own(Thing):
            pass

        class Other(Thing):
            pass
        e.raw, e.a, e.b, e.r = T(), Other(), Other(), Other()
        e.raw.attr = e.r
        e.perm = Perm()
        perm = {'public': ck.CheckerPublic, 'forbid': None}.get(mode, e.perm)
        e.get = {n: perm for n in NAMES}
        e.set = dict(e.get)
        e.own = ck.Checker({}, {})
        if mode in ('uok', 'uno', 'uerr'):
            class User:
                get_permissions = set_permissions = {}

                def check(self, o, n):
                    if mode == 'uno':
                        raise self_.ifc.ForbiddenAttribute(n, o)
                    if mode == 'uerr':
                        raise Boom()
                check_getattr = check_setattr = __setitem__ = check

                def permission_id(self, n):
                    return None
                setattr_permission_id = permission_id

                def proxy(self, v):
                    if mode == 'uerr':
                        raise Boom()
                    return ck.ProxyFactory(v)
                __getitem__ = proxy
            self_ = self
            e.c = User()
        elif mode == 'comb':
            e.c = ck.CombinedChecker(e.own, ck.Checker(e.get, e.set))
        elif mode == 'combno':
            e.c = ck.CombinedChecker(ck.Checker(e.get, e.set), e.own)
        else:
            e.c = ck.Checker(e.get, e.set)
        e.p, e.q = px.Proxy(e.raw, e.c), px.Proxy(e.b, e.c)
        e.name = ''.join(('at', 'tr'))
        e.seltype, e.fresh = Selected, Fresh
        e.selected, e.unproxied = Selected(), Unproxied()
        e.withown, e.withnone, e.withfail = Own(), Own(), Fails()
        e.withown.__Security_checker__ = e.own
        e.withnone.__Security_checker__ = None
        sel = {'error': Boom, 'forbid': None, 'unauth': ck.NoProxy}.get(mode, e.own)

        def select(o):
            if sel is Boom:
                raise Boom()
            return sel
        ck.defineChecker(Selected, select)
        e.select = select
        ck.defineChecker(Unproxied, ck.NoProxy)
        new = {'none': None, 'notimpl': NotImplemented, 'int': 1 << 80, 'small': 3, 'str': ''.join(('st', 'ring')), 'strsub': Text('string'),
               'obj': e.r, 'fresh': Ellipsis, 'proxy': e.q, 'self': e.raw, 'raise': Boom, 'float': 2.5, 'true': True,
               'list': [1, 2], 'iter': iter(()), 'args': None}[ret]
        T.ret = Other.ret = new
        e.new = new
        return e, (T, Selected, Unproxied, Fails, Own, Other)

    def measure(self, e, f, reps):
        watched = [('object', e.raw), ('checker', e.c), ('read table', e.get), ('write table', e.set), ('permission', e.perm),
                   ('argument', e.a), ('argument 2', e.b), ('result', e.r), ('other checker', e.own), ('proxy', e.p),
                   ('other proxy', e.q), ('name', e.name), ('returned', e.new), ('public', self.ck.CheckerPublic),
                   ('NoProxy', self.ck.NoProxy), ('type', type(e.raw)), ('registered', e.selected), ('with checker', e.withown),
                   ('with none', e.withnone), ('failing', e.withfail), ('unproxied', e.unproxied), ('default', self.default),
                   ('available', self.ck._available_by_default), ('types', self.px.Proxy), ('checkers', self.ck.Checker),
                   ('fresh', e.fresh), ('function', e.select), ('interaction', self.mg.queryInteraction())]
        refs = sys.getrefcount
        ex = sys.exc_info

        def run(n):
            for _ in range(n):
                try:
                    f(e)
                except Exception:
                    pass
        run(8)
        gc.collect()
        before = [refs(o) for _n, o in watched]
        b0 = sys.getallocatedblocks()
        run(reps)
        gc.collect()
        after = [refs(o) for _n, o in watched]
        b1 = sys.getallocatedblocks()
        leaks = [n for (n, _o), x, y in zip(watched, before, after) if x != y]
        if b1 - b0 >= reps - 8:
            # the interpreter keeps some memory at hand, but not ever more
            gc.collect()
            b0 = sys.getallocatedblocks()
            run(25 * reps)
            gc.collect()
            if sys.getallocatedblocks() - b0 >= 24 * reps:
                leaks.append('memory')
        return leaks

    def op_stress(self, e):
        ck = self.ck
        self.default = ck._defaultChecker
        self.mg.endInteraction()
        mode = e['mode']
        grant = mode in ('perm', 'comb')

        class I(Refusing):
            def checkPermission(self, permission, object):
                if mode == 'error':
                    raise PolicyError()
                return grant
        old = self.mg.setSecurityPolicy(lambda *p: I())
        if mode != 'nointer':
            self.mg.newInteraction()
        leaks = {}
        for what in e['what']:
            env, types = self.environment(mode, e['ret'])
            l = self.measure(env, self.ops[what], REPS)
            if l:
                # repeat, to set aside what happens once
                l2 = self.measure(env, self.ops[what], REPS)
                l = [x for x in l if x in l2]
            for x in l:
                leaks['%s: %s' % (what, x)] = 1
            for t in types:
                ck._checkers.pop(t, None)
                t.ret = None
            env = types = None
        self.mg.setSecurityPolicy(old)
        self.mg.endInteraction()
        self.mg.newInteraction()
        gc.collect()
        return self.seen({'r': 'done', 'leaks': sorted(leaks)})


if __name__ == '__main__':
    drvlib.main(LifetimeDriver)
