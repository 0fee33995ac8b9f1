"""Driver for spec/Declarations.tla."""
import drvlib
from drv_checkers import CheckersDriver, Interaction
from drvlib import dec, enc_name


class DeclarationsDriver(CheckersDriver):

    def __init__(self, impl):
        super().__init__(impl)
        from zope.security import protectclass
        self.pc = protectclass

    def reset(self, ev):
        super().reset(ev)
        self.classes, self.cells, self.insts = {}, {}, {}
        self.set_grant(())

    def set_grant(self, perms):
        self.mg.endInteraction()
        i = Interaction(self, set(perms), set())
        old = self.mg.setSecurityPolicy(lambda *p: i)
        try:
            self.mg.newInteraction()
        finally:
            self.mg.setSecurityPolicy(old)

    def op_class(self, e):
        base = (self.classes[e['base']],) if e['base'] else ()
        ns = {'x': 1, 'y': 2, 'z': 3, '__parent__': None, '__name__': 'n', '__conform__': lambda self, i: None}
        self.classes[e['id']] = type(e['id'], base, ns)
        self.insts[e['id']] = self.classes[e['id']]()
        self.onames[id(self.insts[e['id']])] = e['id']
        return {'r': 'done'}

    def table(self, m):
        return {dec(k): self.perm(v) for k, v in dict(m).items()}

    def op_cell(self, e):
        get, set_ = self.table(e['get']), self.table(e['set'])
        how = e['how']
        if how == 'names':
            perms = {}
            c = self.ck.NamesChecker([], **get)
        elif how == 'multi':
            c = self.ck.MultiChecker([get])
        elif how == 'noset':
            c = self.ck.Checker(get)
        else:
            c = self.ck.Checker(get, set_)
        self.cells[e['id']] = c
        return {'r': 'done'}

    def run_(self, f):
        try:
            f()
        except Exception as ex:
            return {'r': 'error', 'arg': type(ex).__name__}
        return {'r': 'done'}

    def op_define(self, e):
        return self.run_(lambda: self.ck.defineChecker(self.classes[e['c']], self.cells[e['cell']]))

    def op_undefine(self, e):
        return self.run_(lambda: self.ck.undefineChecker(self.classes[e['c']]))

    def op_protect(self, e):
        f = self.pc.protectName if e['kind'] == 'get' else self.pc.protectSetAttribute
        return self.run_(lambda: f(self.classes[e['c']], dec(e['name']), self.perm(e['perm'])))

    def op_like(self, e):
        return self.run_(lambda: self.pc.protectLikeUnto(self.classes[e['c']], self.classes[e['other']]))

    def op_grant(self, e):
        self.set_grant(e['perms'])
        return {'r': 'done'}

    def op_probe(self, e):
        o = self.insts[e['c']]
        name = dec(e['name'])
        self.cur = (e['c'], name)
        p = self.ck.ProxyFactory(o)
        before = dict(o.__dict__)

        def f():
            if e['kind'] == 'get':
                try:
                    getattr(p, name)
                except self.ifc.ForbiddenAttribute:
                    raise
                except AttributeError:
                    pass                 # allowed, but there is none
            elif e.get('how') == 'del':
                try:
                    delattr(p, name)
                except self.ifc.ForbiddenAttribute:
                    raise
                except AttributeError:
                    pass
            else:
                setattr(p, name, 7)
        value, obs = self.outcome(f)
        if obs['r'] != 'ok' and o.__dict__ != before:
            obs['r'] = 'changed'
        o.__dict__.clear()
        o.__dict__.update(before)
        return {'r': obs['r'], 'arg': obs['arg']}

    def op_dump(self, e):
        c = self.ck.getCheckerForInstancesOf(self.classes[e['c']])
        if c is None:
            return {'r': 'none', 'get': [], 'set': []}
        f = lambda t: sorted('%s=%s' % (enc_name(k), self.pname(v)) for k, v in (t or {}).items())
        return {'r': 'tables', 'get': f(c.get_permissions), 'set': f(c.set_permissions)}


if __name__ == '__main__':
    drvlib.main(DeclarationsDriver)
