"""Replays behaviours of TimeWindow.tla: fields on a time axis, loaded completely or deferred (from NetCDF, chunked or not)."""
import os
import shutil

import netCDF4
import numpy as np

from parcels import Field, FieldSet, JITParticle, ParticleSet, ScipyParticle, Variable

from parcels.tools.converters import TimeConverter

from drvlib import tmpdir

GV = [0, 7, 2, 9, 4, -3, 6, 1, 5]
HV = [0, 3, -2, 5, 1]
NY = len(HV)
LOG = []
C_LOG = """
#include <stdio.h>
#include <stdlib.h>
static inline StatusCode vlog(long long *id, double *t, double *dt, double *lon, double *lat, float *a0, float *a1, float *a2, float *b0, float *b1, float *b2)
{
  FILE *f = fopen(getenv("VERIF_LOG"), "a");
  fprintf(f, "%lld %.17g %.17g %.17g %.17g %.9g %.9g %.9g %.9g %.9g %.9g\\n", *id, *t, *dt, *lon, *lat, *a0, *a1, *a2, *b0, *b1, *b2);
  fclose(f);
  return SUCCESS;
}
"""


def vlog(flag, *a):
    LOG.append([float(v) for v in a])


def SampleOne(particle, fieldset, time):
    particle.a0 = fieldset.A[time, particle.depth, particle.lat, particle.lon]
    particle.a1 = fieldset.A[time + particle.dt / 2, particle.depth, particle.lat, particle.lon]
    particle.a2 = fieldset.A[time + particle.dt, particle.depth, particle.lat, particle.lon]
    vlog('parcels_customed_Cfunc_pointer_args', particle.id, particle.time, particle.dt, particle.lon, particle.lat,
         particle.a0, particle.a1, particle.a2, particle.b0, particle.b1, particle.b2)
    particle.lon += particle.mv
    if particle.lon > 8:
        particle.lon -= 8
    if particle.lon < 0:
        particle.lon += 8
    particle.lat += particle.mvy
    if particle.lat > 4:
        particle.lat -= 4
    if particle.lat < 0:
        particle.lat += 4


def SampleTwo(particle, fieldset, time):
    particle.a0 = fieldset.A[time, particle.depth, particle.lat, particle.lon]
    particle.b0 = fieldset.B[time, particle.depth, particle.lat, particle.lon]
    particle.a1 = fieldset.A[time + particle.dt / 2, particle.depth, particle.lat, particle.lon]
    particle.b1 = fieldset.B[time + particle.dt / 2, particle.depth, particle.lat, particle.lon]
    particle.b2 = fieldset.B[time + particle.dt, particle.depth, particle.lat, particle.lon]
    particle.a2 = fieldset.A[time + particle.dt, particle.depth, particle.lat, particle.lon]
    vlog('parcels_customed_Cfunc_pointer_args', particle.id, particle.time, particle.dt, particle.lon, particle.lat,
         particle.a0, particle.a1, particle.a2, particle.b0, particle.b1, particle.b2)
    particle.lon += particle.mv
    if particle.lon > 8:
        particle.lon -= 8
    if particle.lon < 0:
        particle.lon += 8
    particle.lat += particle.mvy
    if particle.lat > 4:
        particle.lat -= 4
    if particle.lat < 0:
        particle.lat += 4


def SampleA(particle, fieldset, time):
    particle.a0 = fieldset.A[time, particle.depth, particle.lat, particle.lon]
    particle.a1 = fieldset.A[time + particle.dt / 2, particle.depth, particle.lat, particle.lon]
    particle.a2 = fieldset.A[time + particle.dt, particle.depth, particle.lat, particle.lon]
    vlog('parcels_customed_Cfunc_pointer_args', particle.id, particle.time, particle.dt, particle.lon, particle.lat,
         particle.a0, particle.a1, particle.a2, particle.b0, particle.b1, particle.b2)
    particle.lon += particle.mv
    if particle.lon > 8:
        particle.lon -= 8
    if particle.lon < 0:
        particle.lon += 8
    particle.lat += particle.mvy
    if particle.lat > 4:
        particle.lat -= 4
    if particle.lat < 0:
        particle.lat += 4


def SampleB(particle, fieldset, time):
    particle.b0 = fieldset.B[time, particle.depth, particle.lat, particle.lon]
    particle.b1 = fieldset.B[time + particle.dt / 2, particle.depth, particle.lat, particle.lon]
    particle.b2 = fieldset.B[time + particle.dt, particle.depth, particle.lat, particle.lon]
    vlog('parcels_customed_Cfunc_pointer_args', particle.id, particle.time, particle.dt, particle.lon, particle.lat,
         particle.a0, particle.a1, particle.a2, particle.b0, particle.b1, particle.b2)
    particle.lon += particle.mv
    if particle.lon > 8:
        particle.lon -= 8
    if particle.lon < 0:
        particle.lon += 8
    particle.lat += particle.mvy
    if particle.lat > 4:
        particle.lat -= 4
    if particle.lat < 0:
        particle.lat += 4


def particle_class(jit):
    class P(JITParticle if jit else ScipyParticle):
        mv = Variable('mv', dtype=np.float32, initial=0)
        mvy = Variable('mvy', dtype=np.float32, initial=0)
        a0 = Variable('a0', dtype=np.float32, initial=0)
        a1 = Variable('a1', dtype=np.float32, initial=0)
        a2 = Variable('a2', dtype=np.float32, initial=0)
        b0 = Variable('b0', dtype=np.float32, initial=0)
        b1 = Variable('b1', dtype=np.float32, initial=0)
        b2 = Variable('b2', dtype=np.float32, initial=0)
    return P


def run(s):
    sc, jit = s['sc'], s['mode'] == 'jit'
    scale, off = s['scale'], s['off']
    wd = tmpdir()
    LOG.clear()

    def tick(t):
        r = (float(t) - off) / scale
        return round(r) if abs(r - round(r)) < 1e-6 else r
    lon = np.arange(len(GV), dtype=np.float32)
    lat = np.arange(NY, dtype=np.float32)
    z = np.zeros((NY, len(GV)), dtype=np.float32)
    org = TimeConverter(np.float64(0))  # (as for the files, where times are float64)
    fs = FieldSet(*[Field(n, z, lon=lon, lat=lat, mesh='flat', time_origin=org) for n in 'UV'])
    for k, f in enumerate(sc['fields']):
        name = 'AB'[k]
        F = s['fv'][:len(f['ax'])]
        if f['per'] == 1:
            F = F[:-1] + [F[0]]
        data = np.array([[[10 * v + 100 * h + g for g in GV] for h in HV] for v in F], dtype=np.float32)
        times = np.array([off + scale * t for t in f['ax']], dtype=np.float64)
        per = scale * (f['ax'][-1] - f['ax'][0] + f['per'] - 1) if f['per'] else False
        if not f['df'] and not s.get('fullnc'):
            fld = Field(name, data, lon=lon, lat=lat, time=times, mesh='flat', time_periodic=per, time_origin=org,
                        allow_time_extrapolation=f['ext'])
        else:
            files = []
            split = s.get('split', 1)
            groups = [list(range(len(times)))[i:i + split] for i in range(0, len(times), split)]
            for q, idx in enumerate(groups):
                fn = os.path.join(wd, '%s%02d.nc' % (name, q))
                d = netCDF4.Dataset(fn, 'w')
                d.createDimension('time', None)
                d.createDimension('lat', NY)
                d.createDimension('lon', len(GV))
                for n, v in (('lat', lat), ('lon', lon)):
                    d.createVariable(n, 'f4', (n,))[:] = v
                tv = d.createVariable('time', 'f8', ('time',))
                tv[:] = times[idx]
                vv = d.createVariable(name, 'f4', ('time', 'lat', 'lon'))
                vv[:] = data[idx]
                d.close()
                files.append(fn)
            cs = s.get('chunks', [False])
            cs = cs[k % len(cs)]
            if isinstance(cs, list):
                cs = {'time': ('time', 1), 'lat': ('lat', cs[0]), 'lon': ('lon', cs[1])}
            fld = Field.from_netcdf(files, (name, name), {'lon': 'lon', 'lat': 'lat', 'time': 'time'}, mesh='flat',
                                    allow_time_extrapolation=f['ext'], time_periodic=per, deferred_load=f['df'],
                                    chunksize=cs)
        fs.add_field(fld, name)
    parts = sc['parts']
    pclass = particle_class(jit)
    new = lambda: ParticleSet(fs, pclass=pclass, lon=[p['x'] / 2. for p in parts], lonlatdepth_dtype=np.float64,
                       lat=[p['y'] / 2. for p in parts], time=[off + scale * p['r'] for p in parts],
                       mv=[p['m'] / 2. for p in parts], mvy=[p['n'] / 2. for p in parts])
    pset = new()  # noqa: E731
    log_path = os.environ['VERIF_LOG'] = os.path.join(wd, 'log.txt')
    kernels = {}

    def kernel(use):
        if use not in kernels:
            kf = SampleOne if len(sc['fields']) == 1 else [SampleTwo, SampleA, SampleB][use]
            kernels[use] = pset.Kernel(kf, c_include=C_LOG) if jit else pset.Kernel(kf)
        return kernels[use]
    out = []

    def result(exc):
        if jit and os.path.exists(log_path):
            for line in open(log_path):
                LOG.append([float(v) for v in line.split()])
            os.remove(log_path)
        res, base, n = {}, int(min(pset.collection.id)), 3 * len(sc['fields'])
        for a in LOG:
            res.setdefault(str(int(a[0]) - base), []).append([tick(a[1]), tick(a[2] + off), round(2 * a[3], 6), round(2 * a[4], 6)] + a[5:5 + n])
        LOG.clear()
        out.append(dict(steps=res, exc=exc))
    exc = None
    for call in sc['calls'][:s['ncalls']]:
        try:
            if exc:
                result(exc)
                pset, exc = new(), None
            pset.execute(kernel(call['use']), dt=call['dt'] * scale, runtime=call['span'] * scale, verbose_progress=False)
        except Exception as e:
            exc = type(e).__name__
            if exc not in ('TimeExtrapolationError', 'OutOfTimeError'):
                raise
    result(exc)
    shutil.rmtree(wd, ignore_errors=True)
    return out
