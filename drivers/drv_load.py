"""Replays behaviours of Load.tla."""
import os
import shutil

import netCDF4
import numpy as np
import xarray as xr

from parcels import ErrorCode, FieldSet, JITParticle, ParticleSet, ScipyParticle, Variable

from drvlib import tmpdir

BASE = np.datetime64('2001-02-27T18:00:00')
HOUR = 3600.


def K1(particle, fieldset, time):
    particle.a = fieldset.F[time, particle.depth, particle.lat, particle.lon]


def K2(particle, fieldset, time):
    particle.a = fieldset.H[time, particle.depth, particle.lat, particle.lon]


def L1(particle, fieldset, time):
    particle.a = fieldset.U[time, particle.depth, particle.lat, particle.lon]


def L2(particle, fieldset, time):
    particle.a = fieldset.V[time, particle.depth, particle.lat, particle.lon]


class Source:
    def __init__(self, q):
        self.__dict__.update(q)
        self.lon, self.lat = np.array(q['lon']) / 4., np.array(q['lat']) / 4.
        self.depth = np.array(q['depth'], dtype=float)
        d = np.array(q['data'], dtype=np.float32)
        self.data = np.where(d == 9999, np.nan, d).astype(np.float32)
        self.files = np.cumsum([0] + q['parts'])

    def arrays(self):
        lon, lat = (self.lon, self.lat) if self.curv else (self.lon[0], self.lat[:, 0])
        depth = self.depth if self.vert == 's' else self.depth[:, 0, 0]
        return lon.astype(np.float32), lat.astype(np.float32), depth.astype(np.float32)


def role(names):
    return [names.index(n) for n in names] if len(names) == 2 else [1 if n == 'H' else 0 for n in names]


def times(src, tform):
    t = np.array(src.times, dtype=float)
    return t * HOUR if tform == 'var' else BASE + (t * 3600).astype('timedelta64[s]')


def from_data(s, srcs, names, kw):
    h, tr = s['how'], s['seed'] % 2 == 1
    data, dims = {}, {}
    for n, q in zip(names, srcs):
        lon, lat, depth = q.arrays()
        d = q.data
        dims[n] = dict(lon=lon, lat=lat)
        if q.vert != 'none':
            dims[n]['depth'] = depth
        elif s['seed'] % 3 == 0 and q.nx > 1:
            d = d[:, 0]
        if h['tform'] != 'none':
            dims[n]['time'] = times(q, 'var' if h['tform'] == 'var' else 'cal')
        if d.shape[0] == 1 and s['seed'] % 5 < 2 and q.nx > 1:
            d = d[0]
        data[n] = d.T.copy() if tr else d.copy()
    if s['same'] and s['src'][0]['times'] == s['src'][1]['times'] and s['seed'] % 4 < 2:
        dims = dims[names[0]]
    return FieldSet.from_data(data, dims, mesh=s['mesh'], transpose=tr, **kw)


def from_xarray(s, srcs, names, kw):
    h = s['how']
    v, c, dims = {}, {}, {}
    roles = role(names)
    for i, n, q in zip(roles, names, srcs):
        e = '%d' % (i + 1) if h['dform'] == 'pervar' else ''
        lon, lat, depth = q.arrays()
        if q.curv:
            c['lon' + e], c['lat' + e] = (('y' + e, 'x' + e), lon), (('y' + e, 'x' + e), lat)
            dd = ['y' + e, 'x' + e]
        else:
            c['lon' + e], c['lat' + e] = ('lon' + e, lon), ('lat' + e, lat)
            dd = ['lat' + e, 'lon' + e]
        dims[n] = dict(lon='lon' + e, lat='lat' + e)
        d = q.data
        if q.vert == 'none' and (s['seed'] % 2 or q.nx == 1):
            d = d[:, 0]
        else:
            dd = ['depth' + e] + dd
            if q.vert != 'none':
                c['depth' + e] = ('depth' + e, depth)
                dims[n]['depth'] = 'depth' + e
        if h['tform'] == 'none' and s['seed'] % 3:
            d = d[0]
        else:
            dd = ['time' + e] + dd
        if h['tform'] != 'none':
            if h['tform'] == 'days':
                c['time' + e] = ('time' + e, np.array(q.times) / 24., {'Unit': 'days since %s' % str(BASE).replace('T', ' ')})
            else:
                c['time' + e] = ('time' + e, times(q, h['tform']))
            dims[n]['time'] = 'time' + e
        v['d%d' % i] = (dd, d)
    ds = xr.Dataset(v, c)
    return FieldSet.from_xarray_dataset(ds, {n: 'd%d' % i for i, n in zip(roles, names)}, dims[names[0]] if h['dform'] == 'common' else dims, mesh=s['mesh'], **kw)


def put(nc, name, dims, sizes, values, dtype='f4', **attrs):
    for d, k in zip(dims, sizes):
        if d not in nc.dimensions:
            nc.createDimension(d, k)
    if name not in nc.variables:
        fill = attrs.pop('fill', None)
        v = nc.createVariable(name, dtype, dims, fill_value=fill)
        v.setncatts(attrs)
        v[...] = values


def coords(nc, q, e, cs):
    cs = max(cs, 2) if q.curv else cs
    dd, sz = [('y' + e,), ('y' + e, 'x' + e), ('one', 'y' + e, 'x' + e), ('one', 'uno', 'y' + e, 'x' + e)][cs - 1], [(q.ny,), (q.ny, q.nx), (1, q.ny, q.nx), (1, 1, q.ny, q.nx)][cs - 1]
    if cs == 1:
        put(nc, 'lon' + e, ('x' + e,), (q.nx,), q.lon[0])
        put(nc, 'lat' + e, ('y' + e,), (q.ny,), q.lat[:, 0])
    else:
        put(nc, 'lon' + e, dd, sz, q.lon.reshape(sz))
        put(nc, 'lat' + e, dd, sz, q.lat.reshape(sz))
    if q.vert == 's':
        put(nc, 'depth' + e, ('z' + e, 'y' + e, 'x' + e), (q.nz, q.ny, q.nx), q.depth)
    elif q.vert != 'none':
        put(nc, 'depth' + e, ('z' + e,), (q.nz,), q.depth[:, 0, 0])


def content(nc, s, q, i, e, part):
    h, seed = s['how'], s['seed']
    a, b = q.files[part], q.files[part + 1]
    d = q.data[a:b]
    dd, sz = ['y' + e, 'x' + e], [q.ny, q.nx]
    if q.vert == 'none' and (seed % 2 or h['fform'] == 'glob'):
        d = d[:, 0]
    else:
        dd, sz = ['z' + e] + dd, [q.nz] + sz
    if h['tform'] == 'none' and seed % 3 and len(q.sub['z']) != 1:
        d = d[0]
    else:
        dd, sz = ['t' + e] + dd, [b - a] + sz
    if h['tform'] in ('var', 'cal', 'days'):
        t = np.array(q.times[a:b], dtype=float)
        attrs = {} if h['tform'] == 'var' else dict(units='%s since %s' % ('days' if h['tform'] == 'days' else 'seconds', str(BASE).replace('T', ' ')), calendar='standard')
        put(nc, 'time' + e, ('t' + e,), (b - a,), t / 24 if h['tform'] == 'days' else t * HOUR, 'f8', **attrs)
    if (seed + i) % 3 == 0:
        for n, k in zip(dd, sz):
            if n not in nc.dimensions:
                nc.createDimension(n, k)
        v = nc.createVariable('d%d' % i, 'i2', dd, fill_value=-32768)
        v.setncatts(dict(scale_factor=0.5, add_offset=10.))
        v.set_auto_maskandscale(False)
        v[...] = np.where(np.isnan(d), -32768, (d - 10) * 2).astype('i2')
    else:
        put(nc, 'd%d' % i, dd, sz, np.where(np.isnan(d), 1e20, d), fill=1e20)


def from_netcdf(s, srcs, names, kw, wd):
    h = s['how']
    names, srcs, every, roles = [0, 1], [srcs[role(names).index(k)] for k in (0, 1)], names, role(names)
    ff, pervar = h['fform'], h['dform'] == 'pervar'
    es = ['1', '2'] if pervar else ['', '']
    own, split = ff in ('sep', 'sepdims'), ff in ('dims', 'sepdims')
    groups = [[0], [1]] if own else [[0, 1]]
    data, mesh = {}, {}
    for g in groups:
        tag = 'f%d_' % g[0] if own else 'f_'
        paths = []
        for p in range(len(srcs[g[0]].parts)):
            paths.append(os.path.join(wd, '%s%d.nc' % (tag, p)))
            with netCDF4.Dataset(paths[-1], 'w') as nc:
                for i in g:
                    if not split:
                        coords(nc, srcs[i], es[i], h['cs'])
                    content(nc, s, srcs[i], i, es[i], p)
        m = None
        if split:
            m = os.path.join(wd, tag + 'mesh.nc')
            with netCDF4.Dataset(m, 'w') as nc:
                for i in g:
                    coords(nc, srcs[i], es[i], h['cs'])
        for i in g:
            data[i], mesh[i] = paths, m
    names = every
    dims, inds = {}, {}
    for i, n in zip(roles, names):
        dims[n] = dict(lon='lon' + es[i], lat='lat' + es[i], **({} if srcs[i].vert == 'none' else dict(depth='depth' + es[i])), **(dict(time='time' + es[i]) if h['tform'] in ('var', 'cal', 'days') else {}))
        q = srcs[i].sub
        inds[n] = {k: (list(w) if s['seed'] % 2 or w[-1] - w[0] != len(w) - 1 else range(w[0], w[-1] + 1)) for k, w in (('lon', q['x']), ('lat', q['y']), ('depth', q['z'])) if w}
    if all(inds[n] == inds[names[0]] for n in names):
        inds = inds[names[0]] or None
    if not pervar and all(dims[n] == dims[names[0]] for n in names) and (s['seed'] % 3 < 2 or ff in ('list', 'glob')):
        dims = dims[names[0]]
    form = lambda i: dict(lon=mesh[i], lat=mesh[i], data=list(data[i]), **({} if srcs[i].vert == 'none' else dict(depth=mesh[i])))  # noqa: E731
    if ff == 'list':
        files = list(data[0]) if s['seed'] % 4 or h['tform'] == 'stamps' else {n: list(data[0]) for n in names}
    elif ff == 'glob':
        files = os.path.join(wd, 'f_*.nc')
    elif ff == 'sep':
        files = {n: list(data[i]) for i, n in zip(roles, names)}
    elif ff == 'dims':
        files = form(0)
    else:
        files = {n: form(i) for i, n in zip(roles, names)}
    if h['tform'] == 'stamps':
        t = times(srcs[0], 'cal')
        kw['timestamps'] = [t[a:b] for a, b in zip(srcs[0].files, srcs[0].files[1:])]
    if h['kinds'][0]:
        kw['fieldtype'] = {n: h['kinds'][i] if len(names) == 2 or n in 'FH' else n for i, n in zip(roles, names)}
    if h['load'] == 'chunks':
        one = lambda i: dict(lat=('y' + es[i], 2), lon=('x' + es[i], 2), **(dict(time=('t' + es[i], 1)) if h['tform'] not in ('none',) else {}), **(dict(depth=('z' + es[i], 2)) if srcs[i].vert != 'none' else {}))  # noqa: E731
        kw['chunksize'] = one(0) if not pervar else {n: one(i) for i, n in zip(roles, names)}
    elif h['load'] == 'auto':
        kw['chunksize'] = 'auto'
    return FieldSet.from_netcdf(files, {n: 'd%d' % i for i, n in zip(roles, names)}, dims, indices=inds, mesh=s['mesh'], deferred_load=h['load'] != 'file', **kw)


def from_parcels(s, srcs, names, kw, wd):
    h = s['how']
    fs = from_data(s, srcs, names, {})
    fs.write(os.path.join(wd, 'out'))
    if h['names'] == 'FH':
        kw['extra_fields'] = {'F': 'F', 'H': 'H'}
    q = srcs[0].sub
    inds = {k: list(w) for k, w in (('lon', q['x']), ('lat', q['y']), ('depth', q['z'])) if w}
    if h['load'] == 'chunks':
        kw['chunksize'] = {n: dict(lat=('y', 2), lon=('x', 2), time=('time_counter', 1), depth=('depth' + n.lower(), 2)) for n in names}
    elif h['load'] == 'auto':
        kw['chunksize'] = 'auto'
    return FieldSet.from_parcels(os.path.join(wd, 'out'), indices=inds or None, deferred_load=h['load'] != 'file', **kw)


def run(s):
    wd = tmpdir()
    try:
        return run_in(s, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_in(s, wd):
    h = s['how']
    srcs = [Source(q) for q in s['src']]
    names = list(h['names'])
    if h['names'] == 'FH':   # velocities are needed as well; they are like the first field
        names, srcs = [('F', 'H', 'U', 'V'), ('U', 'V', 'F', 'H'), ('U', 'F', 'H', 'V')][s['seed'] % 3], [Source(q) for q in s['src'][:1] * 3 + s['src'][1:]]
        srcs = [srcs[3] if n == 'H' else srcs[0] for n in names]
    kw = dict(vmin=-15, vmax=60) if h['clip'] else {}
    if h['route'] == 'data':
        fs = from_data(s, srcs, names, kw)
    elif h['route'] == 'xarray':
        fs = from_xarray(s, srcs, names, kw)
    elif h['route'] == 'netcdf':
        fs = from_netcdf(s, srcs, names, kw, wd)
    else:
        fs = from_parcels(s, srcs, names, kw, wd)
    jit = s['mode'] == 'jit'

    class LoadParticle(JITParticle if jit else ScipyParticle):
        a = Variable('a', dtype=np.float32, initial=1e30)
    log, out = {}, []

    def recover(particle, fieldset, time):
        log[int(particle.id)] = str(particle.exception if hasattr(particle, 'exception') and particle.exception else particle.state)[:120]
        particle.delete()
    rec = {c: recover for c in (ErrorCode.ErrorOutOfBounds, ErrorCode.Error, ErrorCode.ErrorThroughSurface, ErrorCode.ErrorInterpolation, ErrorCode.ErrorTimeExtrapolation)}
    kernels = [None, None]
    funcs = (K1, K2) if h['names'] == 'FH' else (L1, L2)
    ends = [max(q['times']) for i, q in enumerate(s['src']) if len(q['times']) > 2 or i == 0]
    for p in s['probes']:
        f = p['f'] - 1
        t = p['t'] / 16
        when = BASE + np.timedelta64(int(t * 3600), 's') if h['tform'] in ('cal', 'days', 'stamps') else t * HOUR
        fs.check_complete() if not fs.completed else None
        if h['tform'] == 'var':
            when = float(fs.time_origin.reltime(when))
        elif h['tform'] != 'none' and s['seed'] % 2:
            when = float(fs.time_origin.reltime(when))
        pset = ParticleSet(fs, pclass=LoadParticle, lon=[p['x'] / 64], lat=[p['y'] / 64], depth=[p['z'] / 16], time=[when], lonlatdepth_dtype=np.float64)
        pid = int(pset.id[0])
        log.clear()
        if kernels[f] is None:
            kernels[f] = pset.Kernel(funcs[f])
        exc = None
        try:
            pset.execute(kernels[f], runtime=1, dt=-1 if t >= min(ends + [max(s['src'][f]['times'])]) else 1, recovery=rec, verbose_progress=False)
        except Exception as e:
            exc = type(e).__name__
            if exc != 'TimeExtrapolationError':
                raise
        got = {int(q.id): float(q.a) for q in pset}
        out.append([log.get(pid, 0), exc, got.get(pid)])
    return dict(out=out)
