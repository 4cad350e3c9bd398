#!/usr/bin/env python3
"""C13: nested and summed fields."""
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
os.environ['VERIF_CCOPT'] = '-O0'
from vlib import cfg_text, generate, model_check, replay, run_check  # noqa: E402

INVS = ['NestedHas', 'SummedHas', 'Single', 'Everywhere']
WIDE = dict(Boxes='1..8', Times='0..3', MaxC=4, MaxW=3, Dims='{2,3}', Sph='BOOLEAN', Seeds='0..20', Kuv='{"nested","summed"}', Trees='0..3', Alien='0..3', Zs='{0,3,8,17,25}', Ts='{0,6,16,32}', MaxV=6, Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    assert set(kw) <= set(c)
    c.update(kw)
    return c


def unit(part, what, v, y):
    """Degrees: horizontal velocities are converted from m/s."""
    if not part['sph'] or what != 'uv' or v == 2:
        return 1
    return 1 / (1852 * 60 * (math.cos(math.radians(y)) if v == 0 else 1))


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-700:])
    for m, what, err, val in r['ok']['out']:
        v = s['visits'][m]
        where = '%s at time %s, place (%s, %s, %s)' % (what, v['t'], v['x'] / 2, v['y'] / 2, v['z'] / 2)

        def value(q):
            return [sum(p['v'] / 2 * unit(p, what, d, v['y'] / 2) for p in parts) for d, parts in enumerate(q['v'])]
        werr = v['pq'] if what == 'pq' else v[what]['err']
        if err != werr:
            return '%s: error %s instead of %s' % (where, err, werr)
        if err != 'none':
            if val is not None:
                return '%s: error and value' % where
            continue
        w = [2 * value(v['p'])[0] - 4 * value(v['q'])[0]] if what == 'pq' else value(v[what])
        size = 1 if what != 'uv' else min(sum(unit(p, what, d, v['y'] / 2) for p in parts) / len(parts) for d, parts in enumerate(v[what]['v']))
        if val is None or any(not abs(p - q) <= 2e-5 * abs(q) + 1e-3 * size for p, q in zip(val, w)):
            return '%s: %s instead of %s (kinds %s)' % (where, val, w, s['kinds'])
    return None


def main(c):
    one = dict(Sph='{FALSE}', Seeds='{1}', MaxV=1, Trees='{0}')
    for name, con in [('scalars', dict(one, Boxes=c.n('{1,5}', '{1,2,5}'), Times='{0,2}', MaxC=2, MaxW=1, Dims='{2}', Kuv='{"nested"}', Alien='{0}', Zs='{0,8}', Ts='{0,16}')),
                      ('velocities', dict(one, Boxes='{2,7}', Times='{0}', MaxC=1, MaxW=c.n(1, 2), Dims='{3}', Alien='{0,3}', Zs='{0,3}', Ts='{0}'))]:
        c.model(name, model_check('Combine', cfg_text(constants=consts(**con), invariants=INVS), timeout=700), ['Visit'])
    for k, (con, num) in enumerate([(dict(), c.n(200, 4000)), (dict(Boxes='{1,2,3}', Times='{0,1}', Sph='{FALSE}'), c.n(100, 1500)), (dict(Times='{0}'), c.n(100, 1500))]):
        bs = generate('Combine', cfg_text(constants=consts(Emit='TRUE', **con)), num, c.seed * 100 + k + 1, parts=4)
        scs = [dict(b, mode=mode, form=i, some=i + i // 4) for i, b in enumerate(bs) for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_comb', 'run', scs), judge)


if __name__ == '__main__':
    run_check(main, 'C13')
