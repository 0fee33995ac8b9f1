"""Driver for spec/Registry.tla."""
import types

import drvlib
from drv_checkers import Boom

BUILTIN = {'list': [], 'tuple': (), 'dict': {}, 'int': 5, 'str': 'x', 'type': int,
           'function': lambda: 0, 'module': types, 'proxy': None}


class RegistryDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        from zope.security import checker, proxy
        from zope.testing.cleanup import cleanUp
        self.ck, self.px, self.cleanUp = checker, proxy, cleanUp

        class Unregistered:
            pass
        self.builtin = {n: type(v) for n, v in BUILTIN.items()}
        self.builtin['proxy'] = proxy.Proxy
        get = checker.getCheckerForInstancesOf
        self.default = proxy.getChecker(checker.ProxyFactory(Unregistered()))
        self.named = proxy.getChecker(checker.ProxyFactory(types.ModuleType('other')))
        self.orig = {n: get(t) for n, t in self.builtin.items()}
        # every type that has a built-in registration
        self.all = {t: get(t) for t in checker.BasicTypes}
        for v in (set(), frozenset(), iter([]), iter({}), len, (i for i in ())):
            self.all[type(v)] = get(type(v))
        self.reset({})

    def reset(self, ev):
        ck = self.ck
        for t in getattr(self, 'basics', ()):
            try:
                del ck.BasicTypes[t]
            except KeyError:
                pass
        self.basics = []
        self.cleanUp()
        self.types, self.fns, self.objs, self.checkers = dict(self.builtin), {}, {}, {}
        self.calls, self.keep = [], []
        self.names = {id(self.default): 'DEFAULT', id(self.named): 'NAMED', id(None): 'none',
                      id(ck.NoProxy): 'NOPROXY'}
        for n, c in self.orig.items():
            if c is not ck.NoProxy:
                self.names[id(c)] = 'BYMODULE' if n == 'module' else 'DEF:' + n

    def entry(self, n):
        if n == 'NOPROXY':
            return self.ck.NoProxy
        if n == 'NONE':
            return None
        if n in self.fns:
            return self.fns[n]
        return self.checkers[n]

    def op_checker(self, e):
        from drv_checkers import CheckersDriver
        c = CheckersDriver.checker_class(self, e.get('how'))({'a': self.ck.CheckerPublic})
        self.checkers[e['id']] = c
        self.names[id(c)] = e['id']
        return {'r': 'done'}

    def op_type(self, e):
        base = (self.types[e['base']],) if e.get('base') else ((Exception,) if e['exc'] else ())

        def own(self):
            w = self.__dict__.get('own', '')
            if type(w) is str and w == 'boom':
                raise Boom()
            if type(w) is str and w == '':
                raise AttributeError('__Security_checker__')
            return w
        meta = e.get('meta', '')
        liar = {'liar': property(lambda self: ValueError), 'nocls': property(lambda self: iter(5))}
        ns = {'__Security_checker__': property(own)}
        kind = type
        if meta == 'meta':
            kind = type('Meta', (type,), {})
        elif meta == 'eq':          # all instances compare equal
            ns.update(__eq__=lambda a, b: True, __hash__=lambda a: 7)
        elif meta in liar:          # not the class that __class__ tells
            ns['__class__'] = liar[meta]
        self.types[e['id']] = kind(e['id'], base, ns)
        return {'r': 'done'}

    def op_fn(self, e):
        def fn(ob):
            for k, o in self.objs.items():
                if o is ob:
                    break
            else:
                k = '?'
            self.calls.append('%s@%s' % (e['id'], k))
            if e.get('act'):
                try:
                    {'define': lambda a: self.ck.defineChecker(self.what(a['what']), self.entry(a['entry'])),
                     'undefine': lambda a: self.ck.undefineChecker(self.what(a['what'])),
                     'cleanup': lambda a: self.cleanUp()}[e['act']['op']](e['act'])
                except Exception:
                    pass
            if e['to'] == 'boom':
                raise Boom()
            return self.entry(e['to'])
        self.fns[e['id']] = fn
        self.names[id(fn)] = e['id']
        return {'r': 'done'}

    def op_object(self, e):
        t = e['type']
        if t == 'module':
            o = types.ModuleType(e['id'])
        elif t in self.builtin:
            o = BUILTIN[t]
        else:
            o = self.types[t]()
            w = e['own']
            o.__dict__['own'] = None if w == 'NONE' else self.checkers.get(w, w)
        self.objs[e['id']] = o
        return {'r': 'done'}

    def what(self, n):
        if n in self.types:
            return self.types[n]
        return self.objs.get(n, n)

    def run(self, f):
        del self.calls[:]
        try:
            f()
        except Exception as e:
            return {'r': 'error', 'arg': type(e).__name__}
        return {'r': 'done'}

    def op_define(self, e):
        entry = self.entry(e['entry'])
        return self.run(lambda: self.ck.defineChecker(self.what(e['what']), entry))

    def op_undefine(self, e):
        return self.run(lambda: self.ck.undefineChecker(self.what(e['what'])))

    def op_cleanup(self, e):
        return self.run(self.cleanUp)

    def op_basic(self, e):
        t, v, bt = self.what(e['what']), self.entry(e['entry']), self.ck.BasicTypes
        self.basics.append(t)

        def ior():
            b = bt
            b |= {t: v}
            if b is not bt:
                raise AssertionError('not in place')
        return self.run({'': lambda: bt.__setitem__(t, v), 'update': lambda: bt.update({t: v}),
                         'pairs': lambda: bt.update(iter([(t, v)])), 'ior': ior,
                         'setdefault': lambda: bt.setdefault(t, v)}[e['how']])

    def op_unbasic(self, e):
        t, bt = self.what(e['what']), self.ck.BasicTypes
        how = e['how']
        if how == 'popitem' and list(bt)[-1] is not t:
            how = ''
        return self.run({'': lambda: bt.__delitem__(t), 'pop': lambda: bt.pop(t), 'popitem': bt.popitem,
                         'default': lambda: bt.pop(t, None)}[how])

    def op_lookup(self, e):
        w = self.what(e['what'])
        f = self.ck.moduleChecker if isinstance(w, types.ModuleType) else self.ck.getCheckerForInstancesOf
        return {'r': 'ok', 'val': self.names.get(id(f(w)), '?')}

    def answer(self, f):
        del self.calls[:]
        try:
            v = f()
        except Boom:
            r = {'r': 'error', 'val': 'Boom'}
        except Exception as e:
            r = {'r': 'error', 'val': type(e).__name__}
        else:
            r = {'r': 'ok', 'val': self.names.get(id(v), '?')}
        r['calls'] = list(self.calls)
        return r

    def op_select(self, e):
        return self.answer(lambda: self.ck.selectChecker(self.objs[e['o']]))

    def through(self, o, p):
        if not issubclass(type(p), self.px.Proxy):
            if p is not o:
                raise AssertionError('other object')
            return None
        if self.px.removeSecurityProxy(p) is not o:
            raise AssertionError('other object')
        return self.px.getChecker(p)

    def op_factory(self, e):
        o = self.objs[e['o']]
        return self.answer(lambda: self.through(o, self.ck.ProxyFactory(o)))

    def op_result(self, e):
        """As the result of an operation through some proxy."""
        o = self.objs[e['o']]
        c = self.ck.NamesChecker(['__call__'])
        p = self.px.Proxy(lambda: o, c)
        return self.answer(lambda: self.through(o, p()))

    def op_builtins(self, e):
        get = self.ck.getCheckerForInstancesOf
        mine = all(get(self.builtin[n]) is c for n, c in self.orig.items())
        rest = all(get(t) is c for t, c in self.all.items() if t not in self.builtin.values())
        return {'r': ('all' if mine else 'not all') if rest else 'others changed'}


if __name__ == '__main__':
    drvlib.main(RegistryDriver)
