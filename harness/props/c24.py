"""C24: the public marker keeps its identity."""
import gen_marker
import vlib

DRV, SPEC = 'drv_marker.py', 'TrMarker'
CONFIGS = ('c', 'py', 'c-watch', 'py-watch')


def run(c):
    mc = c.mc('MCMarker', 'MCMarker.cfg', emit=True)
    seen, some = set(), c.n(.25, 1)

    def keep(e, o):
        k = vlib.jdump(e)
        if e['op'] == 'pol' or k not in seen or e.get('v') == 'M':
            seen.add(k)
            return True
        return c.rng.random() < some
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng, keep=keep), src='tour')
    hist = [gen_marker.history(c.rng, 60) for _ in range(c.n(500, 8000))]
    c.conform(DRV, SPEC, hist, configs=CONFIGS, src='random')
    c.conform(DRV, SPEC, [[{'op': 'process', 'protocol': p, 'impl': i} for p in range(6) for i in ('same', 'other')]],
              src='process')
    c.assumptions += ['a proxy put around the marker by hand is not the marker, nor is what is inside it']
