"""Driver for spec/Permissions.tla."""
import drvlib
from drvlib import dec, enc_name


class PermissionsDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        import zope.component
        import zope.component.hooks
        import zope.interface
        import zope.security
        import zope.testing.cleanup
        from zope.configuration import xmlconfig
        from zope.interface.registry import Components
        from zope.schema.interfaces import IVocabularyFactory
        from zope.security import checker, interfaces, permission, proxy, testing
        self.zc, self.hooks, self.xml, self.Components = zope.component, zope.component.hooks, xmlconfig, Components
        self.IVocabularyFactory, self.pkg = IVocabularyFactory, zope.security
        self.ck, self.ifc, self.pm, self.px, self.testing = checker, interfaces, permission, proxy, testing
        self.cleanUp = zope.testing.cleanup.cleanUp
        IP = interfaces.IPermission

        class ISpecial(IP):
            """a kind of permission"""

        @zope.interface.implementer(IP)
        class Own:
            def __init__(self, id, title, description):
                self.id, self.title, self.description = id, title, description

        class Falsy(permission.Permission):
            def __bool__(self):
                return False

        class Empty(permission.Permission):
            def __len__(self):
                return 0

        @zope.interface.implementer(ISpecial)
        class Special(Own):
            pass
        self.kinds = {'plain': permission.Permission, 'own': Own, 'falsy': Falsy, 'empty': Empty, 'special': Special}
        self.ISpecial = ISpecial

        class Site:
            def __init__(self, c):
                self.c = c

            def getSiteManager(self):
                return self.c

        class Conforming:
            def __init__(self, c):
                self.c = c

            def __conform__(self, iface):
                if iface is zope.interface.interfaces.IComponentLookup:
                    return self.c
        self.Site, self.Conforming = Site, Conforming

    def reset(self, ev):
        self.hooks.setSite()
        self.cleanUp()
        self.hooks.setHooks()
        self.ctxs = {'': self.zc.getGlobalSiteManager()}
        self.perms, self.keys, self.k = {}, {}, 0
        self.where = {}

    def context(self, c):
        self.k += 1
        if c == 'NONE':
            return None
        if c == '' and self.k % 3 == 0:
            return object()
        return self.ctxs[c] if self.k % 2 else self.Conforming(self.ctxs[c])

    def op_id(self, e):
        assert [ord(c) for c in dec(e['id'])] == e['cps']
        return {'r': 'done'}

    def op_perm(self, e):
        if e['how'] == 'plain' and not e['desc']:
            self.k += 1
            args = (dec(e['id']),) if not e['title'] else (dec(e['id']), dec(e['title']))
            p = self.pm.Permission(*args)
        else:
            p = self.kinds[e['how']](dec(e['id']), dec(e['title']), dec(e['desc']))
        self.perms[e['p']] = p
        self.keys[id(p)] = e['p']
        return {'r': 'done'}

    def op_ctx(self, e):
        self.ctxs[e['c']] = self.Components(e['c'], (self.ctxs[e['up']],))
        return {'r': 'done'}

    def op_site(self, e):
        self.hooks.setSite(self.Site(self.ctxs[e['c']]) if e['c'] else None)
        return {'r': 'done'}

    def provided(self, p):
        return self.ISpecial if type(p) is self.kinds['special'] else self.ifc.IPermission

    def op_reg(self, e):
        # (an id is registered once in a context, whatever it provides)
        self.op_unreg(e)
        p = self.perms[e['p']]
        self.ctxs[e['c']].registerUtility(p, self.provided(p), dec(e['id']))
        return {'r': 'done'}

    def op_unreg(self, e):
        c = self.ctxs[e['c']]
        a = c.unregisterUtility(provided=self.ifc.IPermission, name=dec(e['id']))
        b = c.unregisterUtility(provided=self.ISpecial, name=dec(e['id']))
        return {'r': 'yes' if a or b else 'no'}

    def failing(self, f):
        try:
            return f()
        except (ValueError, LookupError, TypeError, AttributeError) as ex:
            return {'r': 'error', 'arg': type(ex).__name__}

    def op_check(self, e):
        def f():
            r = self.pm.checkPermission(self.context(e['c']), dec(e['id']))
            return {'r': 'done' if r is None else 'returned'}
        return self.failing(f)

    def op_checkpublic(self, e):
        def f():
            self.pm.checkPermission(self.context(e['c']), self.ck.CheckerPublic)
            return {'r': 'done'}
        return self.failing(f)

    def op_list(self, e):
        def f():
            ids = list(self.pm.allPermissions(self.context(e['c'])) if e['c'] != 'NONE' else self.pm.allPermissions())
            return {'r': 'list', 'set': [enc_name(i) for i in ids], 'n': str(len(ids))}
        return self.failing(f)

    def vocab(self, e, f, name):
        if e['util']:
            f = self.zc.queryUtility(self.IVocabularyFactory, name)
            if f is None:
                return None
        if e['c'] == 'NONE' and not e['util']:
            return f()
        return f(self.context(e['c']))

    def key(self, p, id):
        for k, o in self.perms.items():
            if o is p:
                return k
        return 'made ' + enc_name(id) if type(p) is self.pm.Permission else '?'

    def op_vocab(self, e):
        def f():
            v = self.vocab(e, self.pm.PermissionsVocabulary, 'Permissions')
            if v is None:
                return {'r': 'error', 'arg': 'none'}
            return {'r': 'list', 'set': ['%s=%s' % (enc_name(dec(t.token)), self.key(t.value, dec(t.token))) for t in v],
                    'n': str(len(v))}
        return self.failing(f)

    def op_idvocab(self, e):
        def f():
            v = self.vocab(e, self.pm.PermissionIdsVocabulary, 'Permission Ids')
            if v is None:
                return {'r': 'error', 'arg': 'none'}
            return {'r': 'terms', 'seq': ['%s|%s|%s' % (
                enc_name(dec(t.token)), enc_name(t.title),
                'PUBLIC' if t.value is self.ck.CheckerPublic else enc_name(t.value)) for t in v]}
        return self.failing(f)

    def op_read(self, e):
        p = self.zc.queryUtility(self.ifc.IPermission, dec(e['id']), context=self.context(e['c']))
        if p is None:
            return {'r': 'none'}
        d = '-' if p is self.where.get('public') else self.text(p.description)
        return {'r': 'perm', 'id': enc_name(p.id), 'title': self.text(p.title), 'desc': d}

    def text(self, t):
        return enc_name(' '.join((getattr(t, 'default', None) or t).split()))

    def op_zcml(self, e):
        from xml.sax.saxutils import quoteattr
        c = self.xml.file('meta.zcml', self.pkg)
        self.xml.string('<configure xmlns="http://namespaces.zope.org/zope" i18n_domain="zope">'
                        '<permission id=%s title=%s %s/></configure>' % (
                            quoteattr(dec(e['id'])), quoteattr(dec(e['title'])),
                            'description=' + quoteattr(dec(e['desc'])) if e['desc'] else ''), c)
        return {'r': 'done'}

    def op_public(self, e):
        self.where['public'] = self.testing.addCheckerPublic()
        return {'r': 'done'}

    def op_std(self, e):
        self.xml.file('configure.zcml', self.pkg)
        return {'r': 'done'}


if __name__ == '__main__':
    drvlib.main(PermissionsDriver)
