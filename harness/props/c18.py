"""C18: permission listings show exactly the registered permissions."""
import gen_permissions
import vlib

DRV, SPEC = 'drv_permissions.py', 'TrPermissions'


def run(c):
    mc = c.mc('MCPermissions', 'MCPermissions.cfg', emit=True)
    c.conform(DRV, SPEC, vlib.tour(mc, 'c', c.rng), src='tour')
    hist = [gen_permissions.history(c.rng, 40) for _ in range(c.n(600, 10000))]
    c.conform(DRV, SPEC, hist, src='random')
