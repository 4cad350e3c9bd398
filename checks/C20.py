#!/usr/bin/env python3
"""C20: making Fields from datasets."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
os.environ['VERIF_CCOPT'] = '-O1'
import math  # noqa: E402
from vlib import cfg_text, generate, model_check, replay, run_check  # noqa: E402

WIDE = dict(Routes='{"data","xarray","netcdf","parcels"}', Loads='{"file","deferred","chunks","auto"}', Geos='1..8', Verts='{"none","one","up","down","s"}', Meshes='{"flat","spherical"}', Seeds='0..40', MaxV=6, Wide='TRUE', Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    assert set(kw) <= set(c)
    c.update(kw)
    return c


def factor(kind, lat):
    k = 1852 * 60
    c = math.cos(math.radians(lat))
    return {'': 1, 'U': 1 / (k * c), 'V': 1 / k, 'Kh_zonal': 1 / (k * c) ** 2, 'Kh_meridional': 1 / k ** 2}[kind]


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-900:])
    h = s['how']
    for p, (err, exc, val) in zip(s['probes'], r['ok']['out']):
        name = h['names'][p['f'] - 1]
        where = '%s at time %s h, place (%s, %s, %s)' % (name, p['t'] / 16, p['x'] / 64, p['y'] / 64, p['z'] / 16)
        if p['out']:
            if not err and not exc:
                return '%s, not in the selected data: value %s instead of an error' % (where, val)
            continue
        if err or exc:
            return '%s: error %s' % (where, exc or err)
        kind = '' if s['mesh'] == 'flat' else h['kinds'][p['f'] - 1] or (name if h['names'] == 'UV' else '')
        c = factor(kind, p['y'] / 64)
        w = p['v'] / 16 * c
        if not abs(val - w) <= 1e-4 * abs(w) + 1e-3 * c:
            return '%s: %s instead of %s' % (where, val, w)
    return None


def main(c):
    small = dict(Routes='{"netcdf"}', Loads='{"file"}', Meshes='{"flat"}', MaxV=0, Wide='FALSE')
    c.model('values stay at their coordinates', model_check('Load', cfg_text(constants=consts(Seeds='{1}', Geos=c.n('{2,5}', '1..8'), Verts=c.n('{"down"}', '{"none","one","up","down","s"}'), **small), invariants=['Faithful', 'Complete']), timeout=700), ['Step'])
    for k, (con, num) in enumerate([(dict(Routes='{"netcdf"}', Loads='{"file","deferred"}'), c.n(160, 3000)), (dict(Routes='{"netcdf"}', Loads='{"chunks","auto"}'), c.n(100, 2000)), (dict(Routes='{"data","xarray"}'), c.n(100, 2000)), (dict(Routes='{"parcels"}'), c.n(60, 1200))]):
        bs = generate('Load', cfg_text(constants=consts(Emit='TRUE', **con)), num, c.seed * 100 + k + 1, parts=2)
        scs = [dict(b, mode=mode) for b in bs for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_load', 'run', scs), judge)


if __name__ == '__main__':
    run_check(main, 'C20')
