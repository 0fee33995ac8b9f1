"""Driver for spec/Configuration.tla: writes ZCML files and executes them."""
import os
import shutil
import sys
import tempfile
import types
from xml.sax.saxutils import quoteattr

import drvlib
import zope.interface
import zope.schema
from drv_declarations import DeclarationsDriver
from drvlib import dec, enc_name
from zope.interface.interface import InterfaceClass, Method

HEAD = ('<configure xmlns="http://namespaces.zope.org/zope" xmlns:meta="http://namespaces.zope.org/meta" '
        'i18n_domain="zope">\n')
FIELDS = [zope.schema.TextLine, zope.schema.Int, zope.schema.Bool, zope.schema.List]


class ConfigurationDriver(DeclarationsDriver):
    serial = 0

    def __init__(self, impl):
        self.dir = tempfile.mkdtemp(prefix='zsv-zcml-')
        super().__init__(impl)
        from zope.component import getGlobalSiteManager, queryUtility
        from zope.component.interfaces import IFactory
        from zope.configuration import config, xmlconfig
        import zope.security
        from zope.security import permission, simplepolicies
        self.gsm, self.queryUtility, self.IFactory = getGlobalSiteManager, queryUtility, IFactory
        self.conf, self.xml, self.pkg, self.pm = config, xmlconfig, zope.security, permission
        self.pols = {'paranoid': simplepolicies.ParanoidSecurityPolicy,
                     'permissive': simplepolicies.PermissiveSecurityPolicy}

    def reset(self, ev):
        super().reset(ev)
        self.ns = types.ModuleType('zsvx')
        sys.modules['zsvx'] = self.ns
        if hasattr(self, 'pols'):
            for k, v in self.pols.items():
                setattr(self.ns, 'pol_' + k, v)
        self.ifaces, self.mods = {}, {}
        for n in ('m', 'o'):
            m = types.ModuleType('zsvm_' + n)
            m.__dict__.update(x=1, y=2, z=3, w=4, foo=5, _x=6, ab=7)
            sys.modules['zsvm_' + n] = m
            self.mods[n] = m
            self.onames[id(m)] = n
        self.k = 0

    def op_class(self, e):
        r = super().op_class(e)
        c = self.classes[e['id']]
        c.__module__ = 'zsvx'
        setattr(self.ns, e['id'], c)
        return r

    def op_iface(self, e):
        attrs = {}
        for n in e['names']:
            self.k += 1
            n = dec(n)
            attrs[n] = Method(n) if self.k % 2 else zope.interface.Attribute(n)
        for kind in ('rw', 'ro'):
            for n in e[kind]:
                self.k += 1
                n = dec(n)
                attrs[n] = FIELDS[self.k % len(FIELDS)](title=n, readonly=kind == 'ro', required=bool(self.k % 3))
                attrs[n].__name__ = n
        bases = tuple(self.ifaces[b] for b in e['bases']) or (zope.interface.Interface,)
        type(self).serial += 1
        i = InterfaceClass(e['id'], bases, attrs, __module__='zsvi%d' % self.serial)
        self.ifaces[e['id']] = i
        setattr(self.ns, e['id'], i)
        return {'r': 'done'}

    # -- writing
    def attrs(self, **kw):
        return ''.join(' %s=%s' % (k.rstrip('_'), quoteattr(v)) for k, v in kw.items() if v)

    def names(self, ns):
        self.k += 1
        return (' ', '\n   ', '  ')[self.k % 3].join(dec(n) for n in ns)

    def dotted(self, ns):
        return ' '.join('zsvx.' + n for n in ns)

    def sub(self, c, s):
        k = s['s']
        if k in ('require', 'allow'):
            a = self.attrs(attributes=self.names(s['attrs']), interface=self.dotted(s['ifaces']),
                           set_attributes=self.names(s.get('setattrs', [])),
                           set_schema=self.dotted(s.get('schemas', [])),
                           like_class='zsvx.' + s['like'] if s.get('like') else '',
                           permission=s['perm'] if k == 'require' else '')
            return '<%s%s/>\n' % (k, a)
        if k == 'implements':
            return '<implements%s/>\n' % self.attrs(interface=self.dotted(s['ifaces']))
        self.k += 1
        return '<factory%s/>\n' % self.attrs(id=s['id'], title='T' if self.k % 2 else '')

    def item(self, it, path):
        d = it['d']
        if d == 'permission':
            return '<permission%s/>\n' % self.attrs(id=it['id'], title='T')
        if d == 'redefine':
            return '<meta:redefinePermission%s/>\n' % self.attrs(from_=it['from'], to=it['to'])
        if d == 'class':
            return '<class class="zsvx.%s">\n%s</class>\n' % (
                it['c'], ''.join(self.sub(it['c'], s) for s in it['subs']))
        if d == 'module':
            return '<module module="zsvm_%s">\n%s</module>\n' % (
                it['m'], ''.join(self.sub(None, s) for s in it['subs']))
        if d == 'policy':
            return '<securityPolicy component="zsvx.pol_%s"/>\n' % it['pol']
        if d == 'include':
            return '<include file="%s"/>\n' % self.file(it['items'], os.path.dirname(path))
        if d == 'group':
            return '<configure>\n%s</configure>\n' % ''.join(self.item(x, path) for x in it['items'])
        raise AssertionError(d)

    def file(self, items, where):
        self.nfile += 1
        name = 'f%d.zcml' % self.nfile
        path = os.path.join(where, name)
        body = ''.join(self.item(x, path) for x in items)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(HEAD + body + '</configure>\n')
        return name

    def op_config(self, e):
        self.nfile = 0
        root = os.path.join(self.dir, self.file(e['items'], self.dir))
        try:
            context = self.xml.file('meta.zcml', self.pkg)
            self.xml.file(root, context=context)
        except self.conf.ConfigurationConflictError:
            return {'r': 'conflict'}
        except self.conf.ConfigurationExecutionError as ex:
            cause = getattr(ex, 'evalue', None) or ex.__cause__
            text = str(ex)
            self.clear()
            return {'r': 'undefined' if 'Undefined permission ID' in text else 'failed ' + enc_name(repr(cause)[:200] + text[:200])}
        except self.conf.ConfigurationError:
            return {'r': 'rejected'}
        return {'r': 'done'}

    def clear(self):
        """Forget what was configured, but not the classes and interfaces."""
        inter = self.mg.queryInteraction()
        self.mg.endInteraction()
        self.cleanUp()
        self.mg.endInteraction()
        old = self.mg.setSecurityPolicy(lambda *p: inter)
        self.mg.newInteraction()
        self.mg.setSecurityPolicy(old)
        for c in self.classes.values():
            if self.ck.getCheckerForInstancesOf(c) is not None:
                self.ck.undefineChecker(c)
            zope.interface.classImplementsOnly(c)
            zope.interface.implementedBy(c).inherit = c
            zope.interface.classImplements(c)
        for m in self.mods.values():
            if self.ck.moduleChecker(m) is not None:
                self.ck.undefineChecker(m)

    def op_cleanup(self, e):
        self.clear()
        return {'r': 'done'}

    # -- looking
    def op_mprobe(self, e):
        m, name = self.mods[e['m']], dec(e['name'])
        self.cur = (e['m'], name)
        p = self.ck.ProxyFactory(m)

        def f():
            try:
                getattr(p, name)
            except self.ifc.ForbiddenAttribute:
                raise
            except AttributeError:
                pass
        value, obs = self.outcome(f)
        return {'r': obs['r'], 'arg': obs['arg']}

    def op_mset(self, e):
        m, name = self.mods[e['m']], dec(e['name'])
        self.cur = (e['m'], name)
        p = self.ck.ProxyFactory(m)
        value, obs = self.outcome(lambda: setattr(p, name, 1))
        return {'r': obs['r'], 'arg': obs['arg']}

    def op_mdump(self, e):
        c = self.ck.moduleChecker(self.mods[e['m']])
        if c is None:
            return {'r': 'none', 'get': []}
        return {'r': 'table', 'get': sorted('%s=%s' % (enc_name(k), self.pname(v))
                                            for k, v in c.get_permissions.items())}

    def op_implements(self, e):
        return {'r': 'yes' if self.ifaces[e['i']].implementedBy(self.classes[e['up'][0]]) else 'no'}

    def op_factory(self, e):
        name = e['id']
        if name.startswith('class '):
            name = 'zsvx.' + name[6:]
        f = self.queryUtility(self.IFactory, name)
        if f is None:
            return {'r': 'factory', 'arg': 'none'}
        o = self.px.removeSecurityProxy(f())
        for k, c in self.classes.items():
            if type(o) is c:
                return {'r': 'factory', 'arg': k}
        return {'r': 'factory', 'arg': '?'}

    def op_perm(self, e):
        try:
            self.pm.checkPermission(None, e['id'])
        except ValueError:
            return {'r': 'no'}
        return {'r': 'yes'}

    def op_policy(self, e):
        p = self.mg.getSecurityPolicy()
        return {'r': 'policy', 'arg': next((k for k, v in self.pols.items() if v is p), '?')}

    def close(self):
        shutil.rmtree(self.dir)


if __name__ == '__main__':
    drvlib.main(ConfigurationDriver)
