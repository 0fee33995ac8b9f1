"""Driver for spec/Adapters.tla."""
import drvlib


class Boom(Exception):
    pass


NAMES = 'x', 'y', 'hidden'


class AdaptersDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        import zope.interface
        import zope.location
        from zope.security import adapter, checker, decorator, proxy
        from zope.testing.cleanup import cleanUp
        self.ad, self.ck, self.px, self.cleanUp = adapter, checker, proxy, cleanUp
        self.zi, self.zl = zope.interface, zope.location
        self.ILocation = zope.location.ILocation
        self.LP = zope.location.LocationProxy
        assert decorator

    def reset(self, ev):
        self.cleanUp()
        self.bare, self.proxied, self.facs, self.k = {}, {}, {}, 0
        self.kinds = {}

    def thing(self, how, reads, loc=False):
        """An object of a class of its own, protected by its class or itself."""
        self.k += 1
        ns = {n: n for n in NAMES}
        if how in ('falsy', 'len0'):
            ns['__bool__' if how == 'falsy' else '__len__'] = lambda self: 0 if how == 'len0' else False
        if how == 'eq':
            ns.update(__eq__=lambda a, b: True, __ne__=lambda a, b: False, __hash__=lambda a: 0)
        if how == 'location':
            cls = type('T%d' % self.k, (self.zl.Location,), ns)
        else:
            if loc:
                ns.update(__parent__=None, __name__=None)
            cls = type('T%d' % self.k, (object,), ns)
        if loc and how in ('class', 'falsy', 'eq', 'len0'):
            self.zi.classImplements(cls, self.ILocation)
        o = cls()
        if loc and how in ('direct', 'plain'):
            self.zi.directlyProvides(o, self.ILocation)
        c = self.ck.NamesChecker(list(reads))
        if self.k % 2:
            self.ck.defineChecker(cls, c)
        elif self.k % 4:
            o.__Security_checker__ = c
        else:
            cls.__Security_checker__ = c
        return o

    def op_obj(self, e):
        o = self.thing(e['how'], e['reads'])
        self.bare[e['o']] = o
        self.proxied[e['o']] = self.ck.ProxyFactory(o)
        assert type(self.proxied[e['o']]) is not type(o)
        return {'r': 'done'}

    def deref(self, ref):
        if ref == 'none':
            return None
        return self.proxied[ref[2:]] if ref.startswith('P:') else self.bare[ref]

    def ref(self, o):
        if o is None:
            return 'none'
        for k, v in self.bare.items():
            if v is o:
                return k
        for k, v in self.proxied.items():
            if v is o:
                return 'P:' + k
        return '?'

    def op_adapter(self, e):
        if e['rock']:
            a = {'int': 10 ** 9 + self.k, 'str': 'text %d' % self.k, 'none': None, 'zero': 0}[e['how']]
        else:
            a = self.thing(e['how'], e['reads'], e['loc'])
            if e['loc']:
                a.__parent__ = self.deref(e['parent'])
        self.bare[e['a']] = a
        return {'r': 'done'}

    def op_factory(self, e):
        makes = e['makes']

        def F(*args):
            self.got = [self.ref(a) for a in args]
            if makes == 'boom':
                raise Boom()
            return args[0] if makes == 'ARG' else self.bare[makes]
        F.__name__, F.__module__ = e['name'], e['mod']
        cls = {'trusted': self.ad.TrustedAdapterFactory, 'loctrusted': self.ad.LocatingTrustedAdapterFactory,
               'locuntrusted': self.ad.LocatingUntrustedAdapterFactory}[e['kind']]
        f = self.facs[e['f']] = cls(F)
        return {'r': 'done', 'name': f.__name__, 'mod': f.__module__}

    def op_call(self, e):
        args = [(self.proxied if a['p'] else self.bare)[a['o']] for a in e['args']]
        self.got = ['not called']
        try:
            r = self.facs[e['f']](*args)
        except Boom:
            return {'r': 'Boom', 'got': self.got}
        reads = []
        secure = wrap = False
        x = r
        if issubclass(type(x), self.px.Proxy) and self.ref(x) == '?':
            secure = True
            x = self.px.removeSecurityProxy(x)
        parent = '-'
        if type(x) is self.LP:
            wrap = True
            parent = self.ref(x.__parent__)
            from zope.proxy import getProxiedObject
            x = getProxiedObject(x)
        inner = self.ref(x)
        y = self.px.removeSecurityProxy(x)
        if not wrap and self.ILocation.providedBy(y):
            parent = self.ref(y.__parent__)
        if isinstance(y, (int, str, type(None))):
            reads = [] if secure else list(NAMES)
            for n in ('real', 'upper'):
                try:
                    getattr(r, n)
                except self.ck.ForbiddenAttribute:
                    pass
                except AttributeError:
                    pass
                else:
                    if secure:
                        reads.append(n)
        else:
            for n in NAMES:
                try:
                    getattr(r, n)
                except self.ck.ForbiddenAttribute:
                    pass
                else:
                    reads.append(n)
        return {'r': 'ok', 'got': self.got, 'form': ('S' if secure else '') + ('L' if wrap else '') + ':' + inner,
                'parent': parent, 'reads': reads}


if __name__ == '__main__':
    drvlib.main(AdaptersDriver)
