"""Common part of the drivers, which run inside the configuration under test.

A driver reads the scenario (one call per line), performs each call on the
real code and appends the call with what was observed to the trace.
"""
import argparse
import faulthandler
import json
import os
import sys


def setup():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tree', required=True)
    ap.add_argument('--scenario', required=True)
    ap.add_argument('--trace', required=True)
    ap.add_argument('--progress', required=True)
    ap.add_argument('--start', type=int, default=0)
    args = ap.parse_args()
    faulthandler.enable()
    src = os.path.join(args.tree, 'src')
    sys.path.insert(0, src)
    import zope
    p = os.path.join(src, 'zope')
    path = [p] + [x for x in zope.__path__ if x != p]
    try:
        zope.__path__[:] = path
    except TypeError:
        zope.__path__ = path
    import zope.security
    f = os.path.realpath(zope.security.__file__)
    assert f.startswith(os.path.realpath(p) + os.sep), f
    return args


def dec(s):
    """Names are written in ASCII with backslash escapes."""
    if '\\' in s:
        return s.encode('ascii').decode('unicode_escape')
    return s


def enc(s):
    return s.replace('\\', '\\\\').encode('unicode_escape', 'backslashreplace').decode('ascii') \
        if any(ord(c) > 126 or ord(c) < 32 for c in s) or '\\' in s else s


def enc_name(s):
    """ASCII form of any text, inverse of dec()."""
    out = []
    for c in s:
        o = ord(c)
        if c == '\\':
            out.append('\\x5c')
        elif 32 <= o < 127:
            out.append(c)
        elif o < 256:
            out.append('\\x%02x' % o)
        elif o < 65536:
            out.append('\\u%04x' % o)
        else:
            out.append('\\U%08x' % o)
    return ''.join(out)


def main(cls):
    args = setup()
    impl_is_py = os.environ.get('PURE_PYTHON') == '1'
    import zope.security.proxy
    import zope.security.checker
    drv = cls('py' if impl_is_py else 'c')
    with open(args.scenario) as f:
        lines = f.readlines()
    out = open(args.trace, 'a', buffering=1 << 16)
    prog = os.open(args.progress, os.O_WRONLY)
    handlers = {}
    for n in range(args.start, len(lines)):
        ev = json.loads(lines[n])
        op = ev['op']
        os.pwrite(prog, b'%-12d' % n, 0)
        if op == 'reset':
            out.flush()
            drv.reset(ev)
            out.write(json.dumps(ev, sort_keys=True) + '\n')
            continue
        h = handlers.get(op)
        if h is None:
            h = handlers[op] = getattr(drv, 'op_' + op)
        out.flush() if drv.risky else None
        obs = h(ev)
        check_obs(obs, ev)
        ev['obs'] = obs
        out.write(json.dumps(ev, sort_keys=True) + '\n')
    drv.close()
    out.close()
    os.close(prog)
    sys.stdout.flush()
    # do not let interpreter shutdown turn a finished run into a crash
    os._exit(0)


def check_obs(obs, ev):
    for k, v in obs.items():
        if isinstance(v, str):
            continue
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            continue
        raise AssertionError('bad observation %r for %r' % (obs, ev))


class Driver:
    risky = False

    def __init__(self, impl):
        self.impl = impl

    def reset(self, ev):
        pass

    def close(self):
        pass
