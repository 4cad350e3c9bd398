"""Replays behaviours of Execute.tla with the public API: ParticleSet.execute, recovery kernels, callbacks,
ParticleFile.  Times are scenario ticks mapped to seconds by t -> off + scale * t."""
import os
import shutil

import netCDF4
import numpy as np

from parcels import (ErrorCode, FieldSet, JITParticle, OperationCode, ParticleFile, ParticleSet, ScipyParticle,
                     Variable)
from parcels.tools.statuscodes import (FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError)

from drvlib import tmpdir

NOT = -999
CODES = {'ok': 0, 'nd': 1, 'del': 2, 'rep': 3, 'hlv': 4, 'err': 5, 'oob': 6, 'surf': 7, 'text': 8}
NS = 6
LOG = []

C_LOG = """
#include <stdio.h>
#include <stdlib.h>
static inline StatusCode vlog(long long *id, double *t, double *dt, int *k, %(xt)s *lon, %(xt)s *lat, %(xt)s *depth,
                              float *x, double *y, int *i, long long *j, float *w)
{
  FILE *f = fopen(getenv("VERIF_LOG"), "a");
  fprintf(f, "%%lld %%.17g %%.17g %%d %%.9g %%.9g %%.9g %%.9g %%.9g %%d %%lld\\n", *id, *t, *dt, *k, (double)*lon - *w,
          (double)*lat - *w - 20, (double)*depth - *w - 40, (double)*x, *y, *i, *j);
  fclose(f);
  return SUCCESS;
}
"""


def vlog(flag, *a):
    LOG.append([float(v) for v in a])


def ScriptJit(particle, fieldset, time):
    o = 0
    if particle.k == 0:
        o = particle.s0
    elif particle.k == 1:
        o = particle.s1
    elif particle.k == 2:
        o = particle.s2
    elif particle.k == 3:
        o = particle.s3
    elif particle.k == 4:
        o = particle.s4
    elif particle.k == 5:
        o = particle.s5
    vlog('parcels_customed_Cfunc_pointer_args', particle.id, particle.time, particle.dt, particle.k, particle.lon,
         particle.lat, particle.depth, particle.x, particle.y, particle.i, particle.j, particle.w)
    particle.k += 1
    particle.x += 1
    particle.y += 1
    particle.i += 1
    particle.j += 1
    particle.lon += 1
    particle.lat += 1
    particle.depth += 1
    big = 0
    if math.fabs(particle.dt) == 4 * fieldset.scale or math.fabs(particle.dt) == 8 * fieldset.scale:
        big = 1
    if o == 1:
        particle.update_next_dt(2 * particle.dt)
    if o == 2:
        particle.delete()
    if o == 3 and big == 1:
        particle.dt = particle.dt / 2
        return OperationCode.Repeat
    if o == 4 and big == 1:
        particle.dt = particle.dt / 2
    if o == 5:
        return ErrorCode.Error
    if o == 6:
        return ErrorCode.ErrorOutOfBounds
    if o == 7:
        return ErrorCode.ErrorThroughSurface
    if o == 8:
        return ErrorCode.ErrorTimeExtrapolation


def ScriptPy(particle, fieldset, time):
    o = 0
    if particle.k < 6:
        o = getattr(particle, 's%d' % particle.k)
    LOG.append([float(v) for v in (particle.id, time, particle.dt, particle.k, particle.lon - particle.w,
                particle.lat - particle.w - 20, particle.depth - particle.w - 40, particle.x, particle.y, particle.i, particle.j)])
    if time != particle.time:
        LOG[-1][6] = -1e9
    particle.k += 1
    particle.x += 1
    particle.y += 1
    particle.i += 1
    particle.j += 1
    particle.lon += 1
    particle.lat += 1
    particle.depth += 1
    big = abs(particle.dt) in [4 * fieldset.scale, 8 * fieldset.scale]
    if o == 1:
        particle.update_next_dt(2 * particle.dt)
    if o == 2:
        particle.delete()
    if o == 3 and big:
        particle.dt = particle.dt / 2
        return OperationCode.Repeat
    if o == 4 and big:
        particle.dt = particle.dt / 2
    raising = fieldset.raising == 1
    if o == 5:
        if raising:
            raise ValueError('scripted error')
        return ErrorCode.Error
    if o == 6:
        if raising:
            raise FieldOutOfBoundError(0., 0., 0.)
        return ErrorCode.ErrorOutOfBounds
    if o == 7:
        if raising:
            raise FieldOutOfBoundSurfaceError(0., 0., 0.)
        return ErrorCode.ErrorThroughSurface
    if o == 8:
        if raising:
            raise TimeExtrapolationError(0.)
        return ErrorCode.ErrorTimeExtrapolation


def particle_class(jit):
    class P(JITParticle if jit else ScipyParticle):
        k = Variable('k', dtype=np.int32, initial=0)
        x = Variable('x', dtype=np.float32, initial=0)
        y = Variable('y', dtype=np.float64, initial=0, to_write=False)
        i = Variable('i', dtype=np.int32, initial=0, to_write=False)
        j = Variable('j', dtype=np.int64, initial=0, to_write=False)
        w = Variable('w', dtype=np.float32, initial=-1, to_write='once')
        s0 = Variable('s0', dtype=np.int32, initial=0, to_write=False)
        s1 = Variable('s1', dtype=np.int32, initial=0, to_write=False)
        s2 = Variable('s2', dtype=np.int32, initial=0, to_write=False)
        s3 = Variable('s3', dtype=np.int32, initial=0, to_write=False)
        s4 = Variable('s4', dtype=np.int32, initial=0, to_write=False)
        s5 = Variable('s5', dtype=np.int32, initial=0, to_write=False)
    return P


def coherent(v):
    """x if all the state variables of the particle are coherent with it, else a description"""
    x = v[0]
    return round(x) if all(abs(a - x) < 1e-6 for a in v) else [float(a) for a in v]


def run(s):
    sc, jit = s['sc'], s['mode'] == 'jit'
    scale, off = s['scale'], s['off']

    def sec(t):
        return off + scale * t

    def tick(t):
        r = (float(t) - off) / scale
        return round(r) if abs(r - round(r)) < 1e-6 else r

    wd = tmpdir()
    LOG.clear()
    times = np.array([sec(0), sec(16)], dtype=np.float64)
    z = np.zeros((2, 2, 2), dtype=np.float32)
    fs = FieldSet.from_data({'U': z, 'V': z}, {'lon': np.array([0., 1.], dtype=np.float32),
                            'lat': np.array([0., 1.], dtype=np.float32), 'time': times},
                            mesh='flat', transpose=False, allow_time_extrapolation=True)
    fs.add_constant('scale', float(scale))
    fs.add_constant('raising', 1 if s.get('raising') else 0)
    n = len(sc['parts'])
    rel = [p['r'] for p in sc['parts']]
    if all(r == NOT for r in rel):
        time = None
    else:
        time = [np.nan if r == NOT else sec(r) for r in rel]
    kw = {}
    for q in range(NS):
        kw['s%d' % q] = [CODES[p['s'][q]] if q < len(p['s']) else 0 for p in sc['parts']]
    xt = 'float' if s.get('f32') else 'double'
    pset = ParticleSet(fs, pclass=particle_class(jit), lon=[10. + q for q in range(n)], lat=[30. + q for q in range(n)],
                       depth=[50. + q for q in range(n)], time=time,
                       repeatdt=sc['rep'] * scale if sc['rep'] else None, w=[10. + q for q in range(n)],
                       lonlatdepth_dtype=np.float32 if s.get('f32') else np.float64, **kw)
    base = int(min(pset.collection.id)) if n else 0
    log_path = os.environ['VERIF_LOG'] = os.path.join(wd, 'log.txt')
    if jit:
        kernel = pset.Kernel(ScriptJit, c_include=C_LOG % dict(xt=xt))
    else:
        kernel = pset.Kernel(ScriptPy)
    ev = []

    def drain():
        if jit:
            if os.path.exists(log_path):
                for line in open(log_path):
                    LOG.append([float(v) for v in line.split()])
                os.remove(log_path)
        for a in LOG:
            ev.append(['att', int(a[0]) - base, tick(a[1]), tick(a[2] + off), int(a[3]), coherent([a[7]] + a[4:7] + a[8:])])
        LOG.clear()

    def rows():
        d = pset.collection.data
        return [[int(d['id'][q]) - base, tick(d['time'][q]), int(d['k'][q]),
                 coherent([d[v][q] for v in ('x', 'y', 'i', 'j')]
                          + [d['lon'][q] - d['w'][q], d['lat'][q] - d['w'][q] - 20, d['depth'][q] - d['w'][q] - 40]),
                 float(d['w'][q])] for q in range(len(pset))]

    def callback():
        drain()
        ev.append(['cb', rows()])

    def recover(kind, act):
        def f(particle, fieldset, time):
            drain()
            ev.append(['rec', int(particle.id) - base, tick(time), kind, int(particle.k),
                       coherent([particle.x, particle.lon - particle.w, particle.lat - particle.w - 20, particle.depth - particle.w - 40,
                                 particle.y, particle.i, particle.j])])
            if act in ('skip', 'mut'):
                particle.k += 1
            if act == 'mut':
                for v in ('x', 'y', 'i', 'j', 'lon', 'lat', 'depth'):
                    setattr(particle, v, getattr(particle, v) + 100)
            if act == 'del':
                particle.delete()
        return f
    ec = {'err': ErrorCode.Error, 'oob': ErrorCode.ErrorOutOfBounds, 'surf': ErrorCode.ErrorThroughSurface,
          'text': ErrorCode.ErrorTimeExtrapolation}
    pfile = None
    if sc['out']:
        pfile = ParticleFile(os.path.join(wd, 'o.nc'), pset, outputdt=sc['out'] * scale, write_ondelete=sc['ondel'])
    exc = None
    for call in sc['calls'][:s['ncalls']]:
        ev.append(['call'])
        recovery = {ec[e]: recover(e, a) for e, a in sc['rec'].items() if a != 'raise'}
        if call['mode'] == 'run':
            kwa = {'runtime': call['span'] * scale}
        elif call['mode'] == 'end':
            kwa = {'endtime': sec(call['span'])}
        else:
            kwa = {}
        try:
            pset.execute(kernel, dt=call['dt'] * scale, recovery=recovery,
                         output_file=pfile if call['useout'] else None, postIterationCallbacks=[callback],
                         callbackdt=call['cb'] * scale if call['cb'] else None, verbose_progress=False, **kwa)
        except Exception as e:
            drain()
            exc = type(e).__name__
            ev.append(['exc', exc])
            break
        drain()
    final = rows()
    outrows = None
    if pfile is not None:
        outrows = read_output(pfile, os.path.join(wd, 'o.nc'), base, tick)
    shutil.rmtree(wd, ignore_errors=True)
    return dict(ev=ev, final=final, size=len(pset), out=outrows)


def read_output(pfile, path, base, tick):
    if not pfile.file_list:
        pfile.convert_at_end = False
        return {'none': True}
    pfile.close()
    d = netCDF4.Dataset(path)
    traj = np.ma.filled(d['trajectory'][:], -1)
    t = np.ma.filled(d['time'][:].astype(float), np.nan)
    vals = [np.ma.filled(d[v][:].astype(float), np.nan) for v in ('x', 'lon', 'lat', 'z')]
    once = np.ma.filled(d['w'][:].astype(float), np.nan)
    res = {}
    for q in range(traj.shape[0]):
        r = []
        for o in range(traj.shape[1]):
            if traj[q, o] >= 0:
                r.append([tick(t[q, o]), coherent([v[q, o] - d0 for v, d0 in zip(vals, (0, once[q], once[q] + 20, once[q] + 40))])])
                if o > 0 and traj[q, o] != traj[q, o - 1]:
                    r.append('mixed trajectory')
            elif not all(np.isnan(v[q, o]) for v in vals):
                r.append('data without trajectory')
        pid = int(traj[q, 0]) - base if traj[q, 0] >= 0 else 'row %d starts empty' % q
        res[str(pid)] = dict(rows=r, once=None if np.isnan(once[q]) else float(once[q]))
    d.close()
    return res
