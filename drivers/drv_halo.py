"""Replays behaviours of Halo.tla."""
import os
import shutil

import netCDF4
import numpy as np

from parcels import ErrorCode, Field, FieldSet, JITParticle, ParticleSet, ScipyParticle, Variable
from parcels.field import FieldOutOfBoundError, FieldSamplingError
from parcels.grid import CurvilinearSGrid, CurvilinearZGrid, RectilinearSGrid, RectilinearZGrid

from drvlib import tmpdir


def KF(particle, fieldset, time):
    particle.a = fieldset.F[time, particle.depth, particle.lat, particle.lon]
    particle.b = fieldset.H[time, particle.depth, particle.lat, particle.lon]


def KS(particle, fieldset, time):
    particle.a = fieldset.S[time, particle.depth, particle.lat, particle.lon]
    (particle.b, particle.c) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]


def fieldset(s, wd):
    x, y = np.array(s['x'], dtype=np.float32), np.array(s['y'], dtype=np.float32)
    dep = np.array(s['depth'], dtype=np.float32)
    data = [np.array(d, dtype=np.float32) for d in s['data']]
    time = np.array([0., 8., 16.])
    nz, rect = s['nz'], s['rect']
    summed = s['form'] % 2 == 0
    names = {'U': 0, 'V': 1, 'F': 0, 'H': 1}
    if s['load'] == 'memory':
        cls = {(True, False): RectilinearZGrid, (True, True): RectilinearSGrid, (False, False): CurvilinearZGrid, (False, True): CurvilinearSGrid}[(rect, s['vert'] == 's')]
        depth = dep if s['vert'] == 's' else None if nz == 1 else dep[:, 0, 0].copy()
        lon, lat = (x[0].copy(), y[:, 0].copy()) if rect else (x, y)
        grid = [cls(lon.copy(), lat.copy(), depth=depth, time=time.copy(), mesh=s['mesh']) for _ in range(2)]
        d = [q[:, 0] for q in data] if nz == 1 else data
        f = {n: Field(n, d[k].copy(), grid=grid[0 if s['form'] % 3 else k]) for n, k in names.items()}
        fs = FieldSet(f['U'], f['V'], fields={'F': f['F'], 'H': f['H']})
        if summed:
            fs.add_field(Field('G1', d[0].copy(), grid=grid[1]) + Field('G2', d[1].copy(), grid=grid[1]), 'S')
    else:
        path = os.path.join(wd, 'data.nc')
        nc = netCDF4.Dataset(path, 'w')
        nc.createDimension('t', None)
        nc.createDimension('y', s['ny'])
        nc.createDimension('x', s['nx'])
        if nz > 1:
            nc.createDimension('z', nz)
            v = nc.createVariable('depth', 'f4', ('z',))
            v[:] = dep[:, 0, 0]
        v = nc.createVariable('time', 'f8', ('t',))
        v[:] = time
        if rect:
            nc.createVariable('lon', 'f4', ('x',))[:] = x[0]
            nc.createVariable('lat', 'f4', ('y',))[:] = y[:, 0]
        else:
            nc.createVariable('lon', 'f4', ('y', 'x'))[:] = x
            nc.createVariable('lat', 'f4', ('y', 'x'))[:] = y
        dims = ('t', 'z', 'y', 'x') if nz > 1 else ('t', 'y', 'x')
        for k in range(2):
            v = nc.createVariable('d%d' % k, 'f4', dims)
            v[:] = data[k] if nz > 1 else data[k][:, 0]
        nc.close()
        dim = dict(lon='lon', lat='lat', time='time', **(dict(depth='depth') if nz > 1 else {}))
        kw = {}
        if s['load'] == 'chunks':
            kw['chunksize'] = dict(time=('t', 1), lat=('y', 2), lon=('x', 2), **(dict(depth=('z', nz)) if nz > 1 else {}))
        elif s['load'] == 'auto':
            kw['chunksize'] = 'auto'
        fs = FieldSet.from_netcdf({n: path for n in names}, {n: 'd%d' % k for n, k in names.items()}, dim, mesh=s['mesh'], deferred_load=s['load'] != 'file', **kw)
        summed = False
    for c in s['calls']:
        fs.add_periodic_halo(zonal=c['z'], meridional=c['m'], halosize=c['w'])
    return fs, summed


def run(s):
    wd = tmpdir()
    try:
        return run_in(s, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_in(s, wd):
    fs, summed = fieldset(s, wd)
    jit = s['mode'] == 'jit'

    class HaloParticle(JITParticle if jit else ScipyParticle):
        a = Variable('a', dtype=np.float32, initial=1e30)
        b = Variable('b', dtype=np.float32, initial=1e30)
        c = Variable('c', dtype=np.float32, initial=1e30)
    log, out = {}, []

    def recover(particle, fieldset, time):
        log[int(particle.id)] = 1
        particle.delete()
    rec = {ErrorCode.ErrorOutOfBounds: recover, ErrorCode.Error: recover, ErrorCode.ErrorThroughSurface: recover, ErrorCode.ErrorInterpolation: recover}
    vis = s['visits']
    kernel = None
    n = 1 + s['form'] % 2
    for m in range(len(vis)):
        v = [vis[(m + 2 * i) % len(vis)] for i in range(n)]
        v = [dict(w, t=v[0]['t']) if w['t'] != v[0]['t'] else w for w in v]
        ok = [w['t'] == vis[(m + 2 * i) % len(vis)]['t'] for i, w in enumerate(v)]
        pset = ParticleSet(fs, pclass=HaloParticle, lon=[w['x'] / 16 for w in v], lat=[w['y'] / 16 for w in v], depth=[w['z'] / 64 for w in v], time=[float(v[0]['t'])] * n, lonlatdepth_dtype=np.float64)
        ids = [int(i) for i in pset.id]
        log.clear()
        if kernel is None:
            kernel = pset.Kernel(KS if summed else KF)
        pset.execute(kernel, runtime=1, dt=1, recovery=rec, verbose_progress=False)
        got = {int(p.id): [float(p.a), float(p.b), float(p.c)] for p in pset}
        for i in range(n):
            if ok[i]:
                out.append([(m + 2 * i) % len(vis), 'sum' if summed else 'fields', log.get(ids[i], 0), got.get(ids[i])])
    return dict(out=out)
