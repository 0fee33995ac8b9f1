import gen_checkers
import vlib

CONFIGS = ('c', 'py', 'c-watch', 'py-watch')


def run(c, cfgs, calls, histories, length, comb=False, users=False, ops=None, configs=CONFIGS, tours=True):
    eps = []
    for mc in c.mcs('MCCheckers', ['MCCheckers.%s.cfg' % cfg for cfg in cfgs], emit=tours):
        if tours:
            keep = (lambda e, o: e['op'] in ops or e['op'] in ('entry', 'noentry', 'policy'))
            eps += vlib.tour(mc, 'c', c.rng, keep=keep)
    c.conform('drv_checkers.py', 'TrCheckers', eps, configs=configs[:2], src='tour')
    hist = [gen_checkers.history(c.rng, calls, length, comb=comb, users=users) for _ in range(histories)]
    c.conform('drv_checkers.py', 'TrCheckers', hist, configs=configs, src='random')
