#!/usr/bin/env python3
"""C14: periodic halos."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
os.environ['VERIF_CCOPT'] = '-O1'
import math  # noqa: E402
from vlib import cfg_text, generate, model_check, replay, run_check  # noqa: E402

WIDE = dict(Grids='1..8', Verts='{"none","z","s"}', Loads='{"memory","file","deferred","chunks","auto"}', Meshes='{"flat","spherical"}', Widths='{1,2,3,6}', Seeds='0..30', MaxV=6, Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    assert set(kw) <= set(c)
    c.update(kw)
    return c


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-700:])
    for m, what, err, val in r['ok']['out']:
        v = s['visits'][m]
        where = 'at time %s, place (%s, %s, %s)' % (v['t'], v['x'] / 16, v['y'] / 16, v['z'] / 64)
        if v['out']:
            if not err:
                return '%s, beyond the halo: value %s instead of an error' % (where, val)
            continue
        if err:
            return '%s: error' % where
        f, h = v['f'] / 512, v['h'] / 512
        w = [f, h]
        if what == 'sum':
            cu, cv = (1, 1) if s['mesh'] == 'flat' else (1 / (1852 * 60 * math.cos(math.radians(v['y'] / 16))), 1 / (1852 * 60))
            w = [f + h, f * cu, h * cv]
        if any(not abs(p - q) <= 2e-4 * abs(q) + 2e-3 * (1 if k == 0 or what != 'sum' else cv) for k, (p, q) in enumerate(zip(val, w))):
            return '%s: %s instead of %s' % (where, val, w)
    return None


def main(c):
    c.model('periodic continuation', model_check('Halo', cfg_text(constants=consts(Seeds=c.n('{1}', '{1,2,3}'), MaxV=0, Loads='{"memory"}', Meshes='{"spherical"}', Widths=c.n('{2,6}', '{1,2,3,6}')), invariants=['Periodic', 'Ordered']), timeout=700), ['Halo'])
    for k, (con, num) in enumerate([(dict(Loads='{"memory"}'), c.n(120, 2500)), (dict(Loads='{"file","deferred","chunks","auto"}', Verts='{"none","z"}'), c.n(200, 4000))]):
        bs = generate('Halo', cfg_text(constants=consts(Emit='TRUE', **con)), num, c.seed * 100 + k + 1, parts=4)
        scs = [dict(b, mode=mode, form=i) for i, b in enumerate(bs) for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_halo', 'run', scs), judge)


if __name__ == '__main__':
    run_check(main, 'C14')
