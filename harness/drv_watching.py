"""Driver for spec/Watching.tla."""
import os
import re
import sys

import drvlib
from drvlib import enc_name


class Stream:
    """Keeps what is written to the error stream."""

    def __init__(self, real):
        self.real, self.kept = real, []

    def write(self, s):
        self.kept.append(s)
        return len(s)

    def flush(self):
        pass

    def __getattr__(self, name):
        return getattr(self.real, name)

    def take(self):
        s = ''.join(self.kept)
        del self.kept[:]
        return s


REAL = sys.stderr
ENTRY = re.compile(r'^\[CHK\] ', re.M)
LINE = re.compile(r'([+-]) (Unauthorized|Forbidden|Granted|Always available)( getattr| setattr)?: (.*) on (.*)\n\Z', re.S)
KIND = {'Unauthorized': 'unauth', 'Forbidden': 'forbid', 'Granted': 'granted', 'Always available': 'granted'}

if __name__ == '__main__':
    ERR = sys.stderr = Stream(REAL)
    import drv_checkers

    class WatchingDriver(drv_checkers.CheckersDriver):

        def reset(self, ev):
            super().reset(ev)
            self.tokens = {}
            ERR.take()

        def close(self):
            sys.stderr = REAL

        def op_watch(self, e):
            e['env'] = os.environ.get('ZOPE_WATCH_CHECKERS', '')
            return {'r': str(self.ck.WATCH_CHECKERS)}

        def op_wstd(self, e):
            get = self.tables[e['get']]
            v = e['verb']
            if e['how'] == 'class':
                c = type('Watching', (self.ck.WatchingChecker,), {'verbosity': v})(get, self.tables[e['set']])
            else:
                c = self.ck.WatchingChecker(get, self.tables[e['set']])
                c.verbosity = v
            self.checkers[e['id']] = c
            return {'r': 'done'}

        def op_object(self, e):
            if e['checker'] == 'DEFAULT':
                # of a type that has no checker
                super().op_object(dict(e, checker=''))
            else:
                super().op_object(e)
            o = self.objs[e['id']]
            how, token = e.get('repr', ''), 'tok_%s_' % e['id']
            if how == 'own':
                type(o).__repr__ = lambda self: '<%s off: [CHK] >' % token
            elif how == 'lines':
                type(o).__repr__ = lambda self: 'a\n%s\nb \xe9\udc80' % token
            elif how in ('fails', 'notext', 'denied'):
                def bad(self):
                    if how == 'notext':
                        return None
                    if how == 'denied':
                        raise drv.ifc.Forbidden('no repr')
                    raise drv_checkers.Boom('no repr')
                drv = self
                type(o).__name__ = token
                type(o).__repr__ = bad
            else:
                token = hex(id(o))[2:]
            self.tokens[e['id']] = token
            return {'r': 'done'}

        def seen(self, f, e):
            ERR.take()
            obs = f(e)
            res = set()
            for part in re.split(ENTRY, ERR.take()):
                m = LINE.match(part)
                if m:
                    sign, what, _how, name, text = m.groups()
                    # `on' may occur in the name and in the text
                    objs = [i for i, t in self.tokens.items() if t in text]
                    k = KIND[what]
                    if (sign == '+') != (k == 'granted'):
                        k += sign
                    res.add('%s:%s:%s' % (k, enc_name(name), objs[0] if len(objs) == 1 else '?' + enc_name(text)[:60]))
                elif part:
                    res.add('?' + enc_name(part)[:100])
            obs['log'] = sorted(res)
            return obs

        def op_check(self, e):
            return self.seen(super().op_check, e)

        def op_access(self, e):
            return self.seen(super().op_access, e)

        def op_canaccess(self, e):
            return self.seen(super().op_canaccess, e)

        def op_canwrite(self, e):
            return self.seen(super().op_canwrite, e)

    drvlib.main(WatchingDriver)
