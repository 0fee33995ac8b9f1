"""Driver for spec/Interactions.tla.

Each thread of the specification is a thread of its own here.  Calls are made one at a time, except those that wait in the policy.
"""
import contextvars
import queue
import threading

import drvlib
from drv_checkers import TRUE, FALSE, CheckersDriver, PolicyError, POLICY_ERRORS
from drvlib import dec, enc_name


def coroutine(f):
    """f as a coroutine does it."""
    got = []

    async def co():
        try:
            got.append(f())
        except BaseException as e:
            got.append(e)
    try:
        co().send(None)
    except StopIteration:
        pass
    return got[0]


# A thread does what it does straight, in a context (contextvars) of its own
# or in a coroutine: it is the same thread all the same.
MANNERS = [lambda f: f(), lambda f: contextvars.copy_context().run(f),
           lambda f: contextvars.Context().run(f), coroutine]


class Worker:

    def __init__(self):
        self.todo, self.done = queue.SimpleQueue(), queue.SimpleQueue()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            f = self.todo.get()
            if f is None:
                return
            try:
                self.n += 1
                r = MANNERS[self.n % len(MANNERS)](f)
            except BaseException as e:
                r = e
            self.done.put(r)

    n = 0
    go = None

    def stop(self):
        if self.go is not None:
            self.go.set()
        self.todo.put(None)
        self.thread.join()


class Thing:
    x = 1


class Eq:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    id = 'eq'


class Falsy(Eq):
    def __bool__(self):
        return False


class Own:
    """A participation of our own."""
    interaction = None

    def __init__(self, principal):
        self.principal = principal


class OwnEq(Own, Eq):
    __eq__, __ne__, __hash__ = Eq.__eq__, Eq.__ne__, Eq.__hash__


class OwnSlots:
    __slots__ = 'principal', 'interaction'

    def __init__(self, principal):
        self.principal = principal
        self.interaction = None


class OwnFalsy(Own):
    def __len__(self):
        return 0


class TableInteraction:

    def __init__(self, drv, ps):
        self.drv, self.participations, self.n = drv, list(ps), 0

    def add(self, p):
        raise NotImplementedError

    remove = add

    def checkPermission(self, permission, object):
        d = self.drv
        pause = d.pauses.get(threading.current_thread())
        if pause:
            pause()
        d.asked.append('%s@%s' % (d.pname(permission), d.oname(object)))
        d.answerer = self
        self.n += 1
        return TRUE[self.n % 5] if d.pname(permission) in d.grant else FALSE[self.n % 5]


class FalsyTable(TableInteraction):

    def __bool__(self):
        return False


class InteractionsDriver(CheckersDriver):

    def __init__(self, impl):
        from zope.security import management
        self.initial = management.getSecurityPolicy()
        self.workers = {}
        super().__init__(impl)
        from zope.security import simplepolicies, testing
        self.ts = testing
        sp = self.sp = simplepolicies

        def failing(*ps):
            self.n += 1
            raise POLICY_ERRORS[self.n % len(POLICY_ERRORS)]()

        def slow(*ps):
            pause = self.pauses.get(threading.current_thread())
            if pause:
                pause()
            return sp.ParanoidSecurityPolicy(*ps)

        class EqSub(sp.ParanoidSecurityPolicy):
            """Its interactions are equal, and false values."""
            __eq__, __ne__, __hash__, __bool__ = Falsy.__eq__, Falsy.__ne__, Falsy.__hash__, Falsy.__bool__

        self.pols = {'paranoid': sp.ParanoidSecurityPolicy, 'permissive': sp.PermissiveSecurityPolicy,
                     'failing': failing, 'slow': slow, 'eqsub': EqSub,
                     'table': lambda *ps: TableInteraction(self, ps),
                     'tablef': lambda *ps: FalsyTable(self, ps)}
        self.n = 0

    def reset(self, ev):
        for w in self.workers.values():
            w.stop()
        super().reset(ev)
        self.workers, self.pauses = {}, {}
        self.inters, self.parts, self.cms, self.pending = {}, {}, {}, {}
        self.grant = set()
        self.thing = Thing()
        self.onames[id(self.thing)] = 'thing'
        self.proxies = {}
        self.keep = []
        self.asked, self.answerer = [], None

    # -- running in threads
    def worker(self, t):
        if t not in self.workers:
            # threads are started by threads with interactions, too
            other = next(iter(self.workers), None)
            self.workers[t] = Worker() if other is None or other in self.pending else \
                self.in_thread(other, Worker)
        return self.workers[t]

    def in_thread(self, t, f):
        w = self.worker(t)
        w.todo.put(f)
        r = w.done.get(timeout=30)
        if isinstance(r, BaseException):
            raise r
        return r

    def start(self, t, f):
        """Run f in t until it waits in the policy (True) or ends."""
        w = self.worker(t)
        waiting, go = threading.Event(), threading.Event()

        def pause():
            del self.pauses[w.thread]
            w.done.put('waiting')
            go.wait(30)
        self.pauses[w.thread] = pause
        w.go = go
        w.todo.put(f)
        r = w.done.get(timeout=30)
        self.pauses.pop(w.thread, None)
        if isinstance(r, BaseException):
            raise r
        return r

    def resume(self, t):
        w = self.worker(t)
        w.go.set()
        r = w.done.get(timeout=30)
        if isinstance(r, BaseException):
            raise r
        return r

    # -- names
    def iname(self, i):
        if i is None:
            return 'NONE'
        for k, v in self.inters.items():
            if v is i:
                return k
        return '?'

    def polname(self, p):
        for k, v in self.pols.items():
            if v is p:
                return k
        return '?'

    def partname(self, p):
        for k, v in self.parts.items():
            if v is p:
                return k
        return '?'

    def principal(self, n):
        from zope.security.management import system_user
        if n == 'system':
            return system_user
        if n == 'eqsys':
            return Eq()
        if n == 'falsy':
            return Falsy()
        if n == 'none':
            return None
        if n == 'system2':
            return type(system_user)()
        return self.ts.Principal(n)

    # -- participations
    def op_part(self, e):
        p = self.principal(e['prin'])
        how = e['how']
        if how == 'stub':
            o = self.ts.Participation(p)
        else:
            o = {'own': Own, 'eq': OwnEq, 'slots': OwnSlots, 'falsy': OwnFalsy}[how](p)
        self.parts[e['id']] = o
        return {'r': 'done', 'prin': e['prin'] if o.principal is p else '?', 'of': self.iname(o.interaction)}

    def op_setprin(self, e):
        if e['id'] not in self.parts:
            return {'r': 'none'}
        self.parts[e['id']].principal = self.principal(e['prin'])
        return {'r': 'done'}

    def op_initpol(self, e):
        return {'r': 'policy', 'arg': self.polname(self.initial)}

    def op_getpol(self, e):
        return {'r': 'policy', 'arg': self.polname(self.in_thread(e['t'], self.mg.getSecurityPolicy))}

    def op_setpol(self, e):
        return {'r': 'policy', 'arg': self.polname(
            self.in_thread(e['t'], lambda: self.mg.setSecurityPolicy(self.pols[e['pol']])))}

    def errname(self, ex):
        if isinstance(ex, PolicyError) or isinstance(ex.__cause__, PolicyError):
            # (a StopIteration becomes a RuntimeError in a generator)
            return 'PolicyError'
        return type(ex).__name__

    def starting(self, e, f, ps, finish=False):
        """Run f, which should make interaction e['id'] current in e['t']."""
        self.inters.pop(e['id'], None)
        before = [p for p in ps if p.interaction is None]
        obs = {'r': 'done', 'arg': ''}
        try:
            r = f()
        except Exception as ex:
            obs = {'r': 'error', 'arg': self.errname(ex)}
            r = None
        att = [p for p in before if p.interaction is not None]
        if r == 'waiting':
            return {'r': 'pending', 'arg': '', 'att': []}
        if obs['r'] == 'done':
            q = self.in_thread(e['t'], self.mg.queryInteraction)
            if q is None:
                obs['arg'] = 'nothing is current'
            elif self.iname(q) != '?':
                obs['arg'] = 'not a new interaction'
            else:
                self.inters[e['id']] = q
        elif att:
            self.inters[e['id']] = att[0].interaction
        obs['att'] = sorted({self.partname(p) for p in att})
        return obs

    def op_new(self, e):
        if not set(e['parts']) <= set(self.parts):
            return {'r': 'none'}
        ps = [self.parts[p] for p in e['parts']]
        return self.starting(e, lambda: self.in_thread(e['t'], lambda: self.mg.newInteraction(*ps)), ps)

    def op_newstart(self, e):
        if not set(e['parts']) <= set(self.parts):
            return {'r': 'none'}
        ps = [self.parts[p] for p in e['parts']]
        self.pending[e['t']] = (e, ps)
        obs = self.starting(e, lambda: self.start(e['t'], lambda: self.mg.newInteraction(*ps)), ps)
        if obs['r'] != 'pending':
            del self.pending[e['t']]
        return obs

    def op_newfinish(self, e):
        if e['t'] not in self.pending:
            return {'r': 'none'}
        e0, ps = self.pending.pop(e['t'])
        return self.starting(e0, lambda: self.resume(e['t']), ps)

    def simple(self, e, f):
        try:
            self.in_thread(e['t'], f)
        except Exception as ex:
            return {'r': 'error', 'arg': self.errname(ex)}
        return {'r': 'done'}

    def op_end(self, e):
        return self.simple(e, self.mg.endInteraction)

    def op_restore(self, e):
        return self.simple(e, self.mg.restoreInteraction)

    def op_cleanup(self, e):
        return self.simple(e, self.cleanUp)

    def op_dies(self, e):
        if e['t'] in self.workers:
            self.workers.pop(e['t']).stop()
        return {'r': 'done'}

    def op_query(self, e):
        return {'r': 'inter', 'arg': self.iname(self.in_thread(e['t'], self.mg.queryInteraction))}

    def op_get(self, e):
        try:
            return {'r': 'inter', 'arg': self.iname(self.in_thread(e['t'], self.mg.getInteraction))}
        except self.ifc.NoInteraction:
            return {'r': 'nointeraction', 'arg': ''}

    def on_inter(self, f):
        try:
            f()
        except Exception as ex:
            return {'r': 'error', 'arg': self.errname(ex)}
        return {'r': 'done'}

    def unknown(self, e):
        return e.get('p', None) not in self.parts or \
            'i' in e and (e['i'] not in self.inters or isinstance(self.inters[e['i']], TableInteraction))

    def op_add(self, e):
        if self.unknown(e):
            return {'r': 'none'}
        return self.on_inter(lambda: self.inters[e['i']].add(self.parts[e['p']]))

    def op_remove(self, e):
        if self.unknown(e):
            return {'r': 'none'}
        return self.on_inter(lambda: self.inters[e['i']].remove(self.parts[e['p']]))

    def op_list(self, e):
        if e['i'] not in self.inters:
            return {'r': 'none'}
        return {'r': 'parts', 'seq': [self.partname(p) for p in self.inters[e['i']].participations]}

    def op_of(self, e):
        if self.unknown(e):
            return {'r': 'none'}
        return {'r': 'of', 'arg': self.iname(self.parts[e['p']].interaction)}

    # -- deciding
    def op_grant(self, e):
        self.grant = set(e['perms'])
        return {'r': 'done'}

    def asking(self, f, who, probe=False):
        """who: the name of the interaction that should decide"""
        del self.asked[:]
        self.answerer = None
        try:
            r = f()
        except self.ifc.NoInteraction:
            r = 'nointeraction'
        except self.ifc.Unauthorized:
            r = 'unauth'
        except AttributeError as ex:
            # what a checker raises without an interaction is not documented
            r = 'nointeraction' if probe and who == 'NONE' else 'error ' + str(ex)
        except Exception as ex:
            r = 'error ' + type(ex).__name__
        if r == 'waiting':
            return r
        if r not in ('nointeraction', 'unauth', 'ok') and not (isinstance(r, str) and r.startswith('error ')):
            r = 'true' if r else 'false'
        arg = ''
        if r not in ('nointeraction',) and who != 'NONE':
            # interactions of ours say who they are, of others we know only
            # which one is to decide
            arg = self.iname(self.answerer) if self.answerer is not None else \
                who if not isinstance(self.inters.get(who), TableInteraction) else ''
        return {'r': r, 'arg': arg, 'asked': sorted(set(self.asked))}

    def current(self, t):
        return self.iname(self.in_thread(t, self.mg.queryInteraction))

    def op_check(self, e):
        if e['i'] and e['i'] not in self.inters:
            return {'r': 'none'}
        perm = self.perm(e['perm'])
        who = e['i'] or self.current(e['t'])
        if e['perm'] in ('PUBLIC', 'NONE'):
            who = 'NONE'
        self.n += 1
        if e['i']:
            i = self.inters[e['i']]
            f = (lambda: self.mg.checkPermission(perm, self.thing, i)) if self.n % 2 else \
                (lambda: self.mg.checkPermission(perm, self.thing, interaction=i))
        elif self.n % 3 == 0:
            f = lambda: self.mg.checkPermission(perm, self.thing, None)
        else:
            f = lambda: self.mg.checkPermission(perm, self.thing)
        return self.asking(lambda: self.in_thread(e['t'], f), who)

    def op_icheck(self, e):
        if e['i'] not in self.inters:
            return {'r': 'none'}
        return self.asking(lambda: self.inters[e['i']].checkPermission(self.perm(e['perm']), self.thing), e['i'])

    def prober(self, e):
        p = self.proxies.get(e['perm'])
        if p is None:
            p = self.proxies[e['perm']] = self.px.Proxy(self.thing, self.ck.Checker(
                {'x': self.perm(e['perm'])}, {'x': self.perm(e['perm'])}))
        self.n += 1
        n = self.n

        def f():
            if n % 3 == 0:
                return 'ok' if self.ck.canAccess(p, 'x') else 'unauth'
            if n % 3 == 1:
                p.x
            else:
                p.x = 5
            return 'ok'
        return f

    def op_probe(self, e):
        who = 'NONE' if e['perm'] == 'PUBLIC' else self.current(e['t'])
        return self.asking(lambda: self.in_thread(e['t'], self.prober(e)), who, True)

    def op_probestart(self, e):
        who = 'NONE' if e['perm'] == 'PUBLIC' else self.current(e['t'])
        self.pending[e['t']] = (who, None)
        r = self.asking(lambda: self.start(e['t'], self.prober(e)), who, True)
        if r == 'waiting':
            return {'r': 'pending', 'arg': ''}
        del self.pending[e['t']]
        return r

    def op_probefinish(self, e):
        if e['t'] not in self.pending:
            return {'r': 'none'}
        return self.asking(lambda: self.resume(e['t']), self.pending.pop(e['t'])[0], True)

    # -- testing helpers
    def after(self, e, obs, prin):
        if obs['r'] == 'done' and not obs['arg']:
            i = self.inters[e['id']]
            ps = list(i.participations)
            if len(ps) == 1:
                self.parts[e['p']] = ps[0]
                # the interaction's participation, with the principal returned
                obs['att'] = [e['p']] if ps[0].interaction is i else []
                if ps[0].principal is not prin:
                    obs['arg'] = 'another principal'
                else:
                    obs['arg'] = prin.id
        return obs

    def op_create(self, e):
        got = []
        obs = self.starting(e, lambda: got.append(self.in_thread(
            e['t'], lambda: self.ts.create_interaction(e['prin']))), [])
        return self.after(e, obs, got[0] if got else None)

    def op_enter(self, e):
        cm = self.ts.interaction(e['prin'])
        cur = self.current(e['t'])
        got = []

        def f():
            got.append(self.in_thread(e['t'], lambda: cm.__enter__()))
        if cur != 'NONE':
            try:
                f()
            except Exception as ex:
                return {'r': 'error', 'arg': self.errname(ex), 'att': []}
            self.cms[e['cm']] = cm
            return {'r': 'done', 'arg': 'nothing' if got[0] is None else 'something', 'att': []}
        obs = self.starting(e, f, [])
        if obs['r'] == 'done':
            self.cms[e['cm']] = cm
        return self.after(e, obs, got[0] if got else None)

    def op_exit(self, e):
        cm = self.cms.pop(e['cm'], None)
        if cm is None:
            return {'r': 'none'}
        exc = {'normal': None, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
               'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit,
               'RuntimeError': RuntimeError}[e['how']]

        def f():
            if exc is None:
                cm.__exit__(None, None, None)
                return 'done'
            x = exc('left')
            try:
                try:
                    raise x
                except BaseException:
                    swallowed = cm.__exit__(exc, x, x.__traceback__)
            except BaseException as y:
                return 'raised' if y is x else 'raised another'
            return 'swallowed' if swallowed else 'raised'
        return {'r': self.in_thread(e['t'], f)}

    def op_stub(self, e):
        return self.in_thread('t0', lambda: self.stub(e))

    def stub(self, e):
        kw = {}
        if e['title'] or e['give']:
            kw['title'] = dec(e['title'])
        if e['desc']:
            kw['description'] = dec(e['desc'])
        groups = None
        if e['groups']:
            groups = kw['groups'] = [] if e['groups'][0] == 'empty' else e['groups'][0].split(',')
        if e['via'] == 'create':
            self.mg.endInteraction()
            self.mg.endInteraction()
            p = self.ts.create_interaction(dec(e['id']), **kw)
            self.mg.endInteraction()
            self.mg.endInteraction()
        elif e['via'] == 'cm':
            self.mg.endInteraction()
            with self.ts.interaction(dec(e['id']), **kw) as p:
                pass
            self.mg.endInteraction()
        else:
            p = self.ts.Principal(dec(e['id']), **kw)
        aware = self.ifc.IGroupAwarePrincipal.providedBy(p)
        g = 'none'
        if aware:
            g = ('empty' if not p.groups else ','.join(p.groups)) if p.groups is groups or p.groups == groups else '?'
        if not self.ifc.IPrincipal.providedBy(p):
            g = 'no principal'
        return {'r': 'principal', 'id': enc_name(p.id), 'title': enc_name(p.title), 'desc': enc_name(p.description),
                'groups': g}

    def close(self):
        for w in self.workers.values():
            w.stop()


if __name__ == '__main__':
    drvlib.main(InteractionsDriver)
