"""C09: values of standard types are protected exactly as documented."""
import gen_stdtypes
import vlib

DRV, SPEC = 'drv_stdtypes.py', 'TrStdTypes'
CONFIGS = ('c', 'py', 'c-watch', 'py-watch')


def run(c):
    mc = c.mc('MCStdTypes', 'MCStdTypes.cfg', emit=True)
    # one call per name and way and kind; its outcomes are many in the model
    eps, seen = {}, set()
    kinds = {}
    for s, e, o, t in mc.edges:
        if e['op'] == 'new':
            kinds[t] = e
    for s, e, o, t in mc.edges:
        k = (s, vlib.jdump(e))
        if e['op'] != 'new' and k not in seen:
            seen.add(k)
            eps.setdefault(s, []).append(e)
    tour = [[dict(kinds[s], v=v)] + sorted(es, key=vlib.jdump) for s, es in eps.items() for v in range(c.n(2, 6))]
    c.conform(DRV, SPEC, tour, src='tour')
    c.conform(DRV, SPEC, gen_stdtypes.sweeps(c.rng), configs=CONFIGS, src='sweep')
    hist = [gen_stdtypes.history(c.rng, 60) for _ in range(c.n(500, 8000))]
    c.conform(DRV, SPEC, hist, configs=CONFIGS, src='random')
    c.assumptions += ['kinds of values are the built-in and library types listed in spec/StdTypes.tla',
                      'equality of results is judged by their contents, down to four levels']
