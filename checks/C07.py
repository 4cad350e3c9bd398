#!/usr/bin/env python3
"""C07: particle sets are collections of particles with unique ids."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import cfg_text, generate, model_check, replay, run_check  # noqa: E402

WIDE = dict(NS=3, Sizes='{0,1,2,3,5}', Pats='{"plain","rev","gap","mix"}', Rems='{"one","idx","dup","neg","bool","ids","oneid","sub","flag"}',
            Sets='{"index","iter","array","id","all"}', MaxOps=12, MaxId=24, MaxK=3, Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    assert set(kw) <= set(c)
    c.update(kw)
    return c


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-600:])
    base = r['ok']['base'] or 0

    def rows(ps):
        return sorted([p['id'] + base, p['x'], p['s'], p['k'], p['g'], p['id'] / 2, p['id'] / 4, 0] for p in ps)
    for n, (op, o) in enumerate(zip(s['log'], r['ok']['out'])):
        what = 'operation %d (%s)' % (n + 1, {k: v for k, v in op.items() if k not in ('after', 'found')})
        if o['odd']:
            return what + ': ' + o['odd'][0]
        if 'found' in op and sorted(o['found']) != rows(op['found']):
            return '%s: found [id, x, s, k, g, lon, lat, depth] %s instead of %s' % (what, sorted(o['found']), rows(op['found']))
        for a, w in enumerate(op['after']):
            g = o['st'].get(str(a + 1))
            if (g is not None) != w['made'] or (g is not None and sorted(g) != rows(w['parts'])):
                return 'after %s: set %d is [id, x, s, k, g, lon, lat, depth] %s instead of %s' % (what, a + 1, g and sorted(g), rows(w['parts']))
    return None


def main(c):
    r = model_check('Collection', cfg_text(constants=consts(NS=2, Sizes='{0,2}', Pats='{"plain","rev"}', Rems='{"idx","flag"}', Sets='{"index"}', MaxOps=c.n(3, 4), MaxId=5, MaxK=1),
                                           invariants=['Unique', 'Fresh', 'NewIds'], properties=['Local']), timeout=700)
    c.model('collection operations', r, ['Create', 'Add', 'Remove', 'Look', 'Select', 'Assign', 'Run'])
    for k, (con, num) in enumerate([(dict(), c.n(300, 3000)), (dict(Sizes='{0,1,4,6}', MaxOps=20, MaxId=40), c.n(120, 1500)), (dict(NS=2, Sizes='{0,2,3}', MaxOps=8), c.n(300, 3000))]):
        bs = generate('Collection', cfg_text(constants=consts(Emit='TRUE', **con)), num, c.seed * 100 + k + 1, parts=4)
        scs = [dict(b, mode=mode, form=i) for i, b in enumerate(bs) for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_coll', 'run', scs), judge)


if __name__ == '__main__':
    run_check(main, 'C07')
