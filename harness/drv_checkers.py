"""Driver for spec/Checkers.tla."""
import drvlib
from drvlib import dec, enc_name


class PolicyError(Exception):
    pass


class Boom(Exception):
    pass


def kinds(base):
    """Errors of several kinds that a careless handler might swallow."""
    return [base] + [type(base.__name__, (base, k), {})
                     for k in (AttributeError, KeyError, TypeError, ValueError, RuntimeError, StopIteration)]


POLICY_ERRORS, BOOMS = kinds(PolicyError), kinds(Boom)


TRUE = [True, 1, 'yes', [0], object()]
FALSE = [False, 0, '', [], None]


class Interaction:
    """Answers from a table of permissions and records what it was asked."""

    def __init__(self, drv, grant, fail):
        self.drv, self.grant, self.fail = drv, grant, fail
        self.participations = []
        self.n = 0
        self.edit = None

    def add(self, p):
        self.participations.append(p)

    def remove(self, p):
        self.participations.remove(p)

    def checkPermission(self, permission, object):
        d = self.drv
        d.asked.append('%s@%s' % (d.pname(permission), d.oname(object)))
        self.n += 1
        name = d.pname(permission)
        if self.edit is not None:
            # the tables change while they are in use
            d.edit(self.edit)
            size = len(name)
            del permission, object
            self.junk = ['%0*d' % (size, i) for i in range(500)]
        if name in self.fail:
            raise d.error(POLICY_ERRORS, self.n)
        return TRUE[self.n % 5] if name in self.grant else FALSE[self.n % 5]


class _Equal:
    """Equals everything, also the public marker."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash('CheckerPublic')


class _Str(str):
    pass


# Permissions that are no plain strings, by the names they go under.
ODD_PERMS = {'%equal': _Equal(), '%false': (), '%dict': {}, '%zero': 0, '%no': False, '%str': _Str('p'),
             '%empty': _Str(), '%object': object(), '%int': 7}
ODD_NAMES = {id(v): k for k, v in ODD_PERMS.items()}


class CheckersDriver(drvlib.Driver):

    def __init__(self, impl):
        super().__init__(impl)
        from zope.security import checker, interfaces, management, proxy
        self.ck, self.ifc, self.mg, self.px = checker, interfaces, management, proxy
        from zope.testing.cleanup import cleanUp
        self.cleanUp = cleanUp
        self.reset({})

    def error(self, classes, n):
        return classes[n % len(classes)]()

    # names of things
    def pname(self, p):
        if p is self.ck.CheckerPublic:
            return 'PUBLIC'
        if p is None:
            return 'NONE'
        if id(p) in ODD_NAMES:
            return ODD_NAMES[id(p)]
        if type(p) is str:
            return enc_name(p)
        return '?' + type(p).__name__

    def oname(self, o):
        n = self.onames.get(id(o))
        if n is not None:
            return n
        n = self.onames.get(id(self.px.removeSecurityProxy(o)))
        if n is not None:
            return n + '*'
        return '?'

    def perm(self, s):
        if s == 'PUBLIC':
            return self.ck.CheckerPublic
        if s == 'NONE':
            return None
        if s in ODD_PERMS:
            return ODD_PERMS[s]
        return dec(s)

    def reset(self, ev):
        self.cleanUp()
        self.mg.endInteraction()
        self.mg.endInteraction()
        self.tables, self.checkers, self.objs = {}, {}, {}
        self.onames = {}
        self.asked, self.cons = [], []
        self.mode = ev.get('mode', '')

    def add_object(self, id_, o):
        self.objs[id_] = o
        self.onames[id(o)] = id_

    # -- outcomes
    def outcome(self, f, strict=True):
        """Run f and describe the decision that it met."""
        del self.asked[:]
        del self.cons[:]
        arg = ''
        value = None
        I = self.ifc
        try:
            value = f()
            r = 'ok'
        except I.Unauthorized as e:
            r = 'unauth'
            arg = self.exc_args(e, ('o', 'n', 'p'), strict)
        except I.ForbiddenAttribute as e:
            r = 'forbid'
            arg = self.exc_args(e, ('n', 'o'), strict)
        except PolicyError:
            r, arg = 'error', 'PolicyError'
        except Boom:
            r, arg = 'error', 'Boom'
        except Exception as e:
            r = 'error'
            if (type(e) is AttributeError or isinstance(e, I.NoInteraction)) \
                    and self.mg.queryInteraction() is None:
                arg = 'NoInteraction'
            else:
                arg = type(e).__name__
        return value, {'r': r, 'arg': arg, 'asked': sorted(set(self.asked)),
                       'cons': sorted(set(self.cons))}

    def exc_args(self, e, shape, strict):
        a = e.args
        if len(a) == 1 and isinstance(a[0], str) and a[0].startswith('u:'):
            return a[0]                  # raised by a user-supplied checker
        if len(a) != len(shape):
            return 'args:%d' % len(a)
        d = dict(zip(shape, a))
        if not isinstance(d['n'], str):
            return 'name:' + type(d['n']).__name__
        obj = self.oname(d['o'])
        if not strict:
            obj = obj.rstrip('*')
        if obj != self.cur[0]:
            return 'object:' + obj
        if 'p' in d:
            if d['n'] != self.cur[1] and self.cur[1] != '__iter__':
                return 'name:' + enc_name(d['n'])
            return self.pname(d['p'])
        return enc_name(d['n'])

    # -- calls
    def op_table(self, e):
        self.tables[e['id']] = {dec(k): self.perm(v) for k, v in dict(e['map']).items()}
        return {'r': 'done'}

    def op_entry(self, e):
        self.tables[e['id']][dec(e['name'])] = self.perm(e['perm'])
        return {'r': 'done'}

    def op_noentry(self, e):
        self.tables[e['id']].pop(dec(e['name']), None)
        return {'r': 'done'}

    def checker_class(self, how):
        """Checkers are told apart by identity, whatever they compare like."""
        if not how:
            return self.ck.Checker
        if how == 'eq':
            ns = {'__eq__': lambda a, b: True, '__ne__': lambda a, b: False, '__hash__': lambda a: 1}
        elif how == 'falsy':
            ns = {'__bool__': lambda a: False}
        else:
            ns = {}
        return type('Checker_' + how, (self.ck.Checker,), ns)

    def op_std(self, e):
        get = self.tables[e['get']]
        cls = self.checker_class(e.get('how'))
        if e['set'] == '':
            c = cls(get)
            self.tables[e['id'] + '.set'] = c.set_permissions
        else:
            c = cls(get, self.tables[e['set']])
        self.checkers[e['id']] = c
        return {'r': 'done'}

    def op_comb(self, e):
        self.checkers[e['id']] = self.ck.CombinedChecker(
            self.checkers[e['a']], self.checkers[e['b']])
        return {'r': 'done'}

    def op_user(self, e):
        drv, id_ = self, e['id']

        def answer(kind, name, obj):
            drv.cons.append('%s:%s' % (id_, kind))
            r = e['r' + kind]
            if r == 'ok':
                return
            if r == 'unauth':
                raise drv.ifc.Unauthorized('u:' + id_)
            if r == 'forbid':
                raise drv.ifc.ForbiddenAttribute(name, obj)
            raise drv.error(BOOMS, len(drv.cons) + len(name))

        class Methods:
            def check(self, object, name):
                answer('op' if 'rop' in e else 'get', name, object)

            def check_getattr(self, object, name):
                answer('get', name, object)

            def check_setattr(self, object, name):
                answer('set', name, object)

        if 'rop' not in e:
            # the shortcut that the C proxy uses for either check
            Methods.__setitem__ = Methods.check

        if e.get('how') == 'foreign':
            class Foreign(Methods):
                get_permissions = {}
                set_permissions = {}

                def permission_id(self, name):
                    return None
                setattr_permission_id = permission_id

                def proxy(self, value):
                    return drv.ck.ProxyFactory(value)
            if 'rop' not in e:
                Foreign.__getitem__ = Foreign.proxy
            c = Foreign()
        else:
            class Sub(Methods, self.ck.Checker):
                pass
            c = Sub({}, {})
        self.checkers[id_] = c
        self.tables[id_ + '.get'] = c.get_permissions
        self.tables[id_ + '.set'] = c.set_permissions
        return {'r': 'done'}

    def op_policy(self, e):
        self.mg.endInteraction()
        if e['kind'] == 'table':
            i = Interaction(self, set(e['grant']), set(e['fail']))
            old = self.mg.setSecurityPolicy(lambda *p: i)
            try:
                self.mg.newInteraction()
            finally:
                self.mg.setSecurityPolicy(old)
        return {'r': 'done'}

    def op_object(self, e):
        ns = {'__slots__': ('__dict__',)}
        if e['iter']:
            ns['__iter__'] = lambda self: iter(())
        if e['item']:
            def getitem(self, i):
                raise IndexError(i)
            ns['__getitem__'] = getitem
        if e['checker']:
            ns['__Security_checker__'] = self.checkers[e['checker']]
        cls = type('Subject', (object,), ns)
        self.add_object(e['id'], cls())
        return {'r': 'done'}

    def op_check(self, e):
        c, o, name = self.checkers[e['c']], self.objs[e['o']], dec(e['name'])
        self.cur = (e['o'], name)
        m = {'check': 'check', 'getattr': 'check_getattr', 'setattr': 'check_setattr'}[e['kind']]
        value, obs = self.outcome(lambda: getattr(c, m)(o, name))
        return obs

    def edit(self, ed):
        if ed['perm'] == '':
            self.tables[ed['id']].pop(dec(ed['name']), None)
        else:
            self.tables[ed['id']][dec(ed['name'])] = self.perm(ed['perm'])

    def op_midcheck(self, e):
        for t in self.tables.values():
            for n in t:
                if type(t[n]) is str and len(t[n]) > 1:
                    t[n] = (t[n] + '.')[:-1]    # nobody else has it
        i = self.mg.queryInteraction()
        if i is not None:
            i.edit = e['edit']
        try:
            return self.op_check(e)
        finally:
            if i is not None:
                i.edit = i.junk = None

    def op_permid(self, e):
        c = self.checkers[e['c']]
        m = c.setattr_permission_id if e['kind'] == 'set' else c.permission_id
        return {'r': 'ok', 'perm': self.pname(m(dec(e['name'])))}

    def can(self, e, f):
        o, name = self.objs[e['o']], dec(e['name'])
        self.cur = (e['o'], name)
        if 'c' in e:
            o = self.px.Proxy(o, self.checkers[e['c']])
        elif e['form'] == 'proxied':
            o = self.ck.ProxyFactory(o)
        value, obs = self.outcome(lambda: f(o, name), strict=False)
        # whether the policy sees the proxy or the bare object is not at issue
        obs['asked'] = sorted({a.rstrip('*') for a in obs['asked']})
        if obs['r'] == 'ok':
            obs['r'] = 'True' if value is True else 'False' if value is False else repr(value)
        return obs

    def op_canaccess(self, e):
        return self.can(e, self.ck.canAccess)

    def op_canwrite(self, e):
        return self.can(e, self.ck.canWrite)

    def op_access(self, e):
        raw = self.objs[e['o']]
        name = dec(e['name'])
        self.cur = (e['o'], name)
        p = self.px.Proxy(raw, self.checkers[e['c']]) if 'c' in e else self.ck.ProxyFactory(raw)
        marker = 4711
        d = raw.__dict__
        d.clear()
        if e['kind'] != 'set':
            d[name] = marker
        if e['kind'] == 'get':
            value, obs = self.outcome(lambda: getattr(p, name))
            eff = value == marker if obs['r'] == 'ok' else False
        elif e['kind'] == 'set':
            value, obs = self.outcome(lambda: setattr(p, name, marker))
            eff = d.get(name) == marker
        else:
            value, obs = self.outcome(lambda: delattr(p, name))
            eff = name not in d
        obs['eff'] = 'yes' if eff else 'no'
        return obs


if __name__ == '__main__':
    drvlib.main(CheckersDriver)
