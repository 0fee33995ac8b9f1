"""Driver for spec/Builders.tla."""
import drvlib
import zope.interface
from drv_checkers import CheckersDriver, Interaction
from drvlib import dec, enc_name
from zope.interface.interface import InterfaceClass, Method


class Names:
    """Names that can be iterated only once."""

    def __init__(self, names):
        self.names = list(names)

    def __iter__(self):
        while self.names:
            yield self.names.pop(0)


class Lookup:
    """Not a dict, but has items()."""

    def __init__(self, m):
        self.m = m

    def items(self):
        return iter(self.m.items())


AS = [list, tuple, lambda n: dict.fromkeys(n), iter, set, frozenset, Names]


class Thing:
    """Has every attribute."""

    def __getattr__(self, name):
        return 1

    def __setattr__(self, name, value):
        pass


class BuildersDriver(CheckersDriver):
    serial = 0

    def reset(self, ev):
        super().reset(ev)
        self.ifaces, self.built, self.src = {}, {}, {}
        self.n = 0
        self.thing = Thing()
        self.onames[id(self.thing)] = 'thing'
        self.set_grant(())

    def set_grant(self, perms):
        self.mg.endInteraction()
        i = Interaction(self, set(perms), set())
        old = self.mg.setSecurityPolicy(lambda *p: i)
        try:
            self.mg.newInteraction()
        finally:
            self.mg.setSecurityPolicy(old)

    def op_iface(self, e):
        attrs = {}
        for k, n in enumerate(e['names']):
            n = dec(n)
            attrs[n] = Method(n) if k % 2 else zope.interface.Attribute(n)
        bases = tuple(self.ifaces[b] for b in e['bases']) or (zope.interface.Interface,)
        self.serial += 1
        self.ifaces[e['id']] = InterfaceClass(e['id'], bases, attrs, __module__='m%d' % self.serial)
        return {'r': 'done'}

    def op_rebase(self, e):
        self.ifaces[e['id']].__bases__ = tuple(self.ifaces[b] for b in e['bases']) or (zope.interface.Interface,)
        return {'r': 'done'}

    def container(self, names):
        self.n += 1
        if names and all(len(n) == 1 for n in names) and self.n % 5 == 0:
            return ''.join(names)
        return AS[self.n % len(AS)](names)

    def build(self, id_, f, src):
        try:
            c = f()
        except self.ck.DuplicationError as ex:
            self.built.pop(id_, None)
            return {'r': 'dup', 'arg': enc_name(ex.args[0])}
        except Exception as ex:
            self.built.pop(id_, None)
            return {'r': 'error', 'arg': type(ex).__name__}
        self.built[id_] = c
        self.src[id_] = src
        return {'r': 'done'}

    def common(self, e, first, maker):
        kw = {dec(k): self.perm(v) for k, v in dict(e['kw']).items()}
        p = e['perm']

        def f():
            if p == 'DEFAULT':
                return maker(first, **kw)
            return maker(first, self.perm(p), **kw)
        return self.build(e['id'], f, [first, kw])

    def op_names(self, e):
        return self.common(e, self.container([dec(n) for n in e['names']]), self.ck.NamesChecker)

    def op_ifc(self, e):
        return self.common(e, self.ifaces[e['iface']], self.ck.InterfaceChecker)

    def op_multi(self, e):
        specs = []
        for s in e['specs']:
            if s['kind'] == 'names':
                specs.append((self.container([dec(n) for n in s['names']]), self.perm(s['perm'])))
            elif s['kind'] == 'iface':
                specs.append((self.ifaces[s['iface']], self.perm(s['perm'])))
            else:
                m = {dec(k): self.perm(v) for k, v in dict(s['map']).items()}
                self.n += 1
                specs.append(Lookup(m) if self.n % 3 == 0 else m)
        self.n += 1
        given = iter(specs) if self.n % 3 == 0 else tuple(specs) if self.n % 3 == 1 else specs
        return self.build(e['id'], lambda: self.ck.MultiChecker(given), specs)

    def spoil(self, o):
        if type(o) is list:
            for x in o:
                self.spoil(x)
            o.append('w')
        elif type(o) is tuple:
            for x in o:
                self.spoil(x)
        elif type(o) is Lookup:
            self.spoil(o.m)
        elif type(o) is dict:
            for k in list(o):
                o[k] = 'spoilt'
            o['w'] = self.ck.CheckerPublic
        elif type(o) is set:
            o.add('w')

    def op_spoil(self, e):
        if e['id'] in self.built:
            self.spoil(self.src[e['id']])
        return {'r': 'done'}

    def op_edit(self, e):
        if e['id'] not in self.built:
            return {'r': 'none'}
        self.built[e['id']].get_permissions[dec(e['name'])] = self.perm(e['perm'])
        return {'r': 'done'}

    def op_grant(self, e):
        self.set_grant(e['perms'])
        return {'r': 'done'}

    def op_probe(self, e):
        c = self.built.get(e['id'])
        if c is None:
            return {'r': 'none'}
        name = dec(e['name'])
        self.n += 1
        how = self.n % 2
        self.cur = ('thing', name)
        p = self.px.Proxy(self.thing, c)
        if e['kind'] == 'get':
            f = (lambda: getattr(p, name)) if how else (lambda: c.check_getattr(self.thing, name))
        else:
            f = (lambda: setattr(p, name, 1)) if how else (lambda: c.check_setattr(self.thing, name))
        value, obs = self.outcome(f)
        return {'r': obs['r'], 'arg': obs['arg']}

    def op_dump(self, e):
        c = self.built.get(e['id'])
        if c is None:
            return {'r': 'none'}
        f = lambda t: sorted('%s=%s' % (enc_name(k), self.pname(v)) for k, v in (t or {}).items())
        return {'r': 'tables', 'get': f(c.get_permissions), 'set': f(c.set_permissions)}


if __name__ == '__main__':
    drvlib.main(BuildersDriver)
