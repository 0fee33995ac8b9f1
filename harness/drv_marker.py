"""Driver for spec/Marker.tla."""
import copy
import os
import pickle
import subprocess
import sys
import threading

import drvlib



class Box:
    """Holds a value in every way."""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self.v

    def __iter__(self):
        yield self.v

    def __call__(self, *args, **kw):
        return self.v

    def given(self, *args, **kw):
        return args[0] if args else kw['k']


class EqAll:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class Sub(str):
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = str.__hash__


class Falsy:
    def __bool__(self):
        return False


class MarkerDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        from zope.component import provideUtility
        from zope.interface import Attribute, Interface
        from zope.testing.cleanup import cleanUp

        from zope.security import checker, interfaces, management, permission, protectclass, proxy, simplepolicies
        from zope.security._definitions import system_user
        self.ck, self.ifc, self.mg, self.px, self.pm = checker, interfaces, management, proxy, permission
        self.pc, self.sp, self.system_user = protectclass, simplepolicies, system_user
        self.cleanUp, self.provideUtility = cleanUp, provideUtility

        class INamed(Interface):
            n = Attribute('n')
        self.INamed = INamed
        M = checker.CheckerPublic
        self.open = checker.Checker(
            {n: M for n in ('v', 'given', '__getitem__', '__iter__', '__call__', '__next__')})
        self.reset({})

    def reset(self, ev):
        self.cleanUp()
        self.mg.endInteraction()
        self.mg.endInteraction()
        self.vals = {'M': self.ck.CheckerPublic, 'N': None}
        self.inter = None
        self.asked = []

    # -- values
    def like(self, kind):
        ck, px = self.ck, self.px
        M = ck.CheckerPublic
        inner = px.removeSecurityProxy(M)
        if kind == 'spoof':
            class Spoof:
                __class__ = type(inner)
                __name__ = 'CheckerPublic'
                __module__ = 'zope.security.checker'

                def __reduce__(self):
                    return 'CheckerPublic'
            return Spoof()
        return {
            'id': lambda: 'zope.Public', 'name': lambda: 'CheckerPublic', 'sub': lambda: Sub('zope.Public'),
            'eqall': EqAll, 'inner': lambda: inner, 'global': lambda: ck.Global('CheckerPublic', 'zope.security.checker'),
            'reproxied': lambda: px.Proxy(inner, ck.Checker({'__reduce__': M})),
            'doubly': lambda: px.Proxy(M, px.getChecker(M)), 'samechecker': lambda: px.Proxy(inner, px.getChecker(M)),
            'pstr': lambda: px.Proxy('zope.Public', px.getChecker(M)), 'perm': lambda: self.pm.Permission('zope.Public'),
            'true': lambda: True, 'int': lambda: 1, 'empty': lambda: '', 'list': lambda: [], 'noproxy': lambda: ck.NoProxy,
            'class': lambda: ck.Global, 'proxytype': lambda: px.Proxy, 'module': lambda: ck, 'falsy': Falsy,
        }[kind]()

    def op_make(self, e):
        self.vals[e['id']] = self.like(e['kind'])
        return {'r': 'done'}

    # -- journeys
    def journey(self, how, v):
        ck, px = self.ck, self.px
        box = px.Proxy(Box(v), self.open)
        if how == 'permid':
            return ck.Checker({'n': v}).permission_id('n')
        if how == 'setpermid':
            return ck.Checker({}, {'n': v}).setattr_permission_id('n')
        if how == 'table':
            return ck.Checker({'n': v}).get_permissions['n']
        if how == 'names':
            return ck.NamesChecker(['n'], v).permission_id('n')
        if how == 'iface':
            return ck.InterfaceChecker(self.INamed, v).permission_id('n')
        if how == 'comb':
            return ck.CombinedChecker(ck.Checker({'n': v}), ck.Checker({})).permission_id('n')
        if how == 'factory':
            return ck.ProxyFactory(v)
        if how == 'cproxy':
            return self.open.proxy(v)
        if how == 'attr':
            return box.v
        if how == 'item':
            return ck.ProxyFactory({'k': v})['k']
        if how == 'listitem':
            return ck.ProxyFactory([v])[0]
        if how == 'iter':
            return next(iter(ck.ProxyFactory([v])))
        if how == 'call':
            return box()
        if how == 'kwargs':
            return box.given(k=v)
        if how == 'copy':
            return copy.copy(v)
        if how == 'deepcopy':
            return copy.deepcopy(v)
        if how == 'deepcontainer':
            return copy.deepcopy({'k': [v, v]})['k'][1]
        if how == 'container':
            a, b = pickle.loads(pickle.dumps([v, {'k': v}]))
            if a is not b['k']:
                raise ValueError('not the same')
            return a
        if how.startswith('pickle'):
            return pickle.loads(pickle.dumps(v, int(how[6:])))
        if how == 'pypickle':
            return pickle._loads(pickle._dumps(v))
        if how == 'thread':
            res = []
            t = threading.Thread(target=lambda: res.append(ck.ProxyFactory((v,))[0]))
            t.start()
            t.join()
            return res[0]
        if how == 'dictkey':
            return list({v: 1})[0]
        if how == 'set':
            return next(iter({v}))
        if how == 'sorted':
            return sorted([v])[0]
        if how == 'default':
            def f(x=v):
                return x
            return ck.ProxyFactory(f)()
        if how == 'vocabulary':
            if v is not ck.CheckerPublic:
                return v
            self.provideUtility(self.pm.Permission('zope.Public'), self.ifc.IPermission, 'zope.Public')
            return [t.value for t in self.pm.PermissionIdsVocabulary() if t.token == 'zope.Public'][0]
        if how == 'remove':
            return px.removeSecurityProxy(v)

    def op_nop(self, e):
        return {'r': 'ok'}

    def op_travel(self, e):
        if e['v'] not in self.vals:
            # a journey of a look-alike that failed
            e['op'] = 'nop'
            return self.op_nop(e)
        try:
            v = self.journey(e['how'], self.vals[e['v']])
        except Exception:
            return {'r': 'error'}
        self.vals[e['id']] = v
        return {'r': 'PUBLIC' if v is self.ck.CheckerPublic else 'other'}

    # -- interactions
    def op_pol(self, e):
        k = e['kind']
        self.mg.endInteraction()
        self.inter = None
        if k == 'none':
            return {'r': 'done'}
        drv = self

        class Own:
            def __init__(self, *participations):
                self.participations = list(participations)

            def add(self, p):
                pass
            remove = add

            def checkPermission(self, permission, object):
                drv.asked.append(permission)
                return k == 'all'

        class Part:
            interaction = None

            def __init__(self, principal):
                self.principal = principal
        if k in ('all', 'nothing'):
            pol = Own
        else:
            pol = self.sp.PermissiveSecurityPolicy if k == 'permissive' else self.sp.ParanoidSecurityPolicy
        parts = {'paranoid-user': ['u'], 'paranoid-system': [self.system_user],
                 'paranoid-both': [self.system_user, 'u'], 'permissive': ['u']}.get(k, [])
        old = self.mg.setSecurityPolicy(pol)
        try:
            self.mg.newInteraction(*[Part(p) for p in parts])
        finally:
            self.mg.setSecurityPolicy(old)
        self.inter = self.mg.getInteraction()
        return {'r': 'done'}

    # -- questions
    def question(self, how, v):
        ck, px = self.ck, self.px

        class Subject:
            n = 7

            def __call__(self):
                return 7
        o = Subject()
        if how == 'mgmt':
            return self.mg.checkPermission(v, o)
        if how == 'mgmtarg':
            return self.mg.checkPermission(v, o, self.inter) if self.inter is not None else self.mg.checkPermission(v, o)
        if how == 'policy':
            return (self.inter or self.mg.getInteraction()).checkPermission(v, o)
        c = ck.Checker({'n': v, '__call__': v}, {'n': v})
        if how == 'check':
            c.check(o, 'n')
        elif how == 'check_getattr':
            c.check_getattr(o, 'n')
        elif how == 'check_setattr':
            c.check_setattr(o, 'n')
        elif how == 'names':
            ck.NamesChecker(['n'], v).check(o, 'n')
        elif how == 'iface':
            ck.InterfaceChecker(self.INamed, v).check(o, 'n')
        elif how == 'multi':
            ck.MultiChecker([(['n'], v)]).check(o, 'n')
        elif how == 'comb1':
            ck.CombinedChecker(c, ck.Checker({})).check(o, 'n')
        elif how == 'comb2':
            ck.CombinedChecker(ck.Checker({}), c).check(o, 'n')
        elif how == 'get':
            px.Proxy(o, c).n
        elif how == 'set':
            px.Proxy(o, c).n = 8
        elif how == 'call':
            px.Proxy(o, c)()
        elif how == 'canaccess':
            return ck.canAccess(px.Proxy(o, c), 'n')
        elif how == 'canwrite':
            return ck.canWrite(px.Proxy(o, c), 'n')
        elif how == 'declared':
            self.pc.protectName(Subject, 'n', v)
            try:
                ck.ProxyFactory(o).n
            finally:
                ck.undefineChecker(Subject)
        return True

    def op_ask(self, e):
        if e['v'] not in self.vals:
            e['op'] = 'nop'
            return self.op_nop(e)
        v = self.vals[e['v']]
        del self.asked[:]
        perm = ''
        try:
            r = 'ok' if self.question(e['how'], v) else 'refused'
        except self.ifc.Unauthorized as x:
            r = 'unauth'
            perm = e['v'] if len(x.args) > 2 and x.args[2] is v else '?'
        except self.ifc.Forbidden:
            r = 'forbid'
        except (self.ifc.NoInteraction, AttributeError):
            r = 'error'
        return {'r': r, 'perm': perm, 'asked': sorted({e['v'] if a is v else '?' for a in self.asked})}

    def op_process(self, e):
        """Stored here, loaded by another process."""
        tree = os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(self.ck.__file__))))
        data = pickle.dumps([self.ck.CheckerPublic], e['protocol'])
        prog = ('import sys, pickle; sys.path.insert(0, %r); import drvlib; sys.argv[1:] = ["--tree", %r] + '
                '["--scenario", "", "--trace", "", "--progress", ""]; drvlib.setup(); '
                'v = pickle.loads(bytes.fromhex(%r))[0]; import zope.security.checker as c; '
                'print("PUBLIC" if v is c.CheckerPublic else "other")'
                % (os.path.dirname(os.path.abspath(__file__)), tree, data.hex()))
        env = dict(os.environ)
        if e['impl'] == 'other':
            env['PURE_PYTHON'] = '0' if self.impl == 'py' else '1'
        p = subprocess.run([sys.executable, '-c', prog], env=env, capture_output=True, text=True, timeout=50)
        return {'r': p.stdout.strip() or 'error'}


if __name__ == '__main__':
    drvlib.main(MarkerDriver)
