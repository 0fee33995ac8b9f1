"""Driver for spec/Decorators.tla."""
import drvlib
from drv_checkers import Boom, CheckersDriver
from drvlib import dec

NAMES = 'a', 'b', 'c', 'd', 'title'


class DecoratorsDriver(CheckersDriver):

    def __init__(self, impl):
        super().__init__(impl)
        import zope.location
        import zope.proxy
        from zope.security import decorator
        self.dc, self.zp = decorator, zope.proxy
        self.LP = zope.location.LocationProxy

        class Unregistered:
            pass
        self.default = self.px.getChecker(self.ck.ProxyFactory(Unregistered()))
        self.reset({})

    def reset(self, ev):
        super().reset(ev)
        if not hasattr(self, 'default'):
            return
        self.checkers['DEFAULT'] = self.default
        self.nodes, self.k = {}, 0

    def keep(self, id_, o):
        self.nodes[id_] = o
        self.onames[id(o)] = id_
        return {'r': 'done'}

    def define(self, cls, entry):
        if entry:
            c = self.ck.NoProxy if entry == 'NOPROXY' else self.checkers[entry]
            self.k += 1
            if entry != 'NOPROXY' and self.k % 3 == 0:
                c = (lambda c: lambda ob: c)(c)
            self.ck.defineChecker(cls, c)

    def op_obj(self, e):
        ns = {n: 'value of ' + n for n in NAMES}
        own = e['own']
        self.k += 1
        inst = None
        if own == 'boom':
            def boom(o):
                raise self.error(
                    [b for b in __import__('drv_checkers').BOOMS if not issubclass(b, AttributeError)], self.k)
            ns['__Security_checker__'] = property(boom)
        elif own:
            c = None if own == 'NONE' else self.checkers[own]
            if self.k % 2:
                ns['__Security_checker__'] = c
            else:
                inst = c
        elif self.k % 4 == 0:
            def none(o):
                raise AttributeError('__Security_checker__')
            ns['__Security_checker__'] = property(none)
        cls = type('Object', (object,), ns)
        o = cls()
        if inst is not None:
            o.__Security_checker__ = inst
        self.define(cls, e['entry'])
        return self.keep(e['id'], o)

    def op_sec(self, e):
        return self.keep(e['id'], self.px.Proxy(self.nodes[e['of']], self.checkers[e['c']]))

    def op_dec(self, e):
        D = self.dc
        how = e['how']
        base = {'base': (D.DecoratorBase,), 'security': (D.SecurityCheckerDecoratorBase,),
                'sub': (type('Base', (D.DecoratorBase,), {}),),
                'own': (self.zp.ProxyBase,)}[how]
        ns = {n: 'decorated ' + n for n in e['attrs']}
        if how == 'own':
            ns['__Security_checker__'] = D.DecoratedSecurityCheckerDescriptor()
        cls = type('Decorator', base, ns)
        self.define(cls, e['entry'])
        if how == 'sub' and not e['entry']:
            # what its base class has does not count
            self.ck.defineChecker(base[0], self.ck.NamesChecker(NAMES))
        return self.keep(e['id'], cls(self.nodes[e['of']]))

    def op_loc(self, e):
        return self.keep(e['id'], self.LP(self.nodes[e['of']]))

    def op_defloc(self, e):
        if self.ck.getCheckerForInstancesOf(self.LP) is not None:
            self.ck.undefineChecker(self.LP)
        self.define(self.LP, e['entry'])
        return {'r': 'done'}

    def op_ofclass(self, e):
        cls = type(self.nodes[e['n']])
        self.k += 1
        if self.k % 2:
            p = self.ck.ProxyFactory(cls)
        else:
            p = self.ck.NamesChecker([]).proxy(cls)
        if not issubclass(type(p), self.px.Proxy):
            return {'r': 'bare'}
        # the registry's entry for classes, or the default
        c, entry = self.px.getChecker(p), self.ck.getCheckerForInstancesOf(type(cls))
        return {'r': 'registered' if c is (self.default if entry is None else entry) else 'another'}

    def op_attr(self, e):
        try:
            c = self.nodes[e['n']].__Security_checker__
        except AttributeError:
            return {'r': 'absent', 'arg': ''}
        except Boom:
            return {'r': 'error', 'arg': 'Boom'}
        if c is None:
            # an object that says it has none
            return {'r': 'absent', 'arg': ''}
        for k, v in self.checkers.items():
            if v is c:
                return {'r': 'checker', 'arg': k}
        return {'r': 'combined' if isinstance(c, self.ck.CombinedChecker) else '?', 'arg': ''}

    def proxied(self, e, f):
        n = self.nodes[e['n']]
        try:
            p = self.ck.ProxyFactory(n)
        except Boom:
            return {'r': 'error', 'arg': 'Boom', 'asked': [], 'cons': []}
        if not issubclass(type(p), self.px.Proxy):
            return {'r': 'bare', 'arg': '', 'asked': [], 'cons': []}
        self.cur = (e['n'], dec(e['name']))
        o = self.px.removeSecurityProxy(p)
        self.cur = (self.oname(o), self.cur[1])
        return f(p, o)

    def exc_args(self, e, shape, strict):
        # objects further in may be the ones refused
        a = e.args
        if len(a) == len(shape):
            d = dict(zip(shape, a))
            n = self.oname(d['o'])
            if n in self.nodes:
                self.cur = (n, self.cur[1])
        return super().exc_args(e, shape, strict)

    def op_dcheck(self, e):
        name = dec(e['name'])

        def f(p, o):
            c = self.px.getChecker(p)
            m = c.check_setattr if e['kind'] == 'set' else c.check if e['kind'] == 'op' else c.check_getattr
            return self.outcome(lambda: m(o, name))[1]
        return self.proxied(e, f)

    def op_daccess(self, e):
        name = dec(e['name'])

        def f(p, o):
            if e['kind'] == 'set':
                return self.outcome(lambda: setattr(p, name, 1))[1]
            return self.outcome(lambda: getattr(p, name))[1]
        return self.proxied(e, f)

    def op_assign(self, e):
        n = self.nodes[e['n']]
        try:
            if e['how'] == 'set':
                n.__Security_checker__ = self.default
            else:
                del n.__Security_checker__
        except TypeError as ex:
            return {'r': 'error', 'arg': 'TypeError' if e['how'] == 'set' else 'refused'}
        except AttributeError:
            return {'r': 'error', 'arg': 'AttributeError' if e['how'] == 'set' else 'refused'}
        return {'r': 'done', 'arg': ''}


if __name__ == '__main__':
    drvlib.main(DecoratorsDriver)
