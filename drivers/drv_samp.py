"""Replays behaviours of Sampling.tla: places visited one after the other on a grid, in several interleavings."""
import numpy as np

from parcels import ErrorCode, Field, FieldSet, JITParticle, ParticleSet, ScipyParticle, Variable, VectorField
from parcels.field import FieldOutOfBoundError, FieldOutOfBoundSurfaceError
from parcels.grid import CurvilinearSGrid, CurvilinearZGrid, RectilinearSGrid, RectilinearZGrid

T1 = 8


def Scalar(particle, fieldset, time):
    particle.s1 = fieldset.F[time, particle.depth, particle.lat, particle.lon]
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]


def ScalarAfter(particle, fieldset, time):
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]
    particle.s1 = fieldset.F[particle]


def SecondOfVector(particle, fieldset, time):
    (particle.s2, particle.s1) = fieldset.G[time, particle.depth, particle.lat, particle.lon]
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]


def ThirdOfVector(particle, fieldset, time):
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]
    (particle.s2, particle.s3, particle.s1) = fieldset.G[time, particle.depth, particle.lat, particle.lon]


def Vector2(particle, fieldset, time):
    (particle.s1, particle.s2) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]


def Vector3(particle, fieldset, time):
    particle.b = fieldset.B[time, particle.depth, particle.lat, particle.lon]
    (particle.s1, particle.s2, particle.s3) = fieldset.UVW[time, particle.depth, particle.lat, particle.lon]


def make_grid(s, scale, xoff=0, mesh='flat'):
    lon = np.array(s['x'], dtype=np.float32) * scale + xoff
    lat = np.array(s['y'], dtype=np.float32) * scale
    time = np.array([0, T1], dtype=np.float64)
    dep = np.array(s['depth'], dtype=np.float32)
    if s['vert'] == 's':
        cls = RectilinearSGrid if s['rect'] else CurvilinearSGrid
        depth = dep
    else:
        cls = RectilinearZGrid if s['rect'] else CurvilinearZGrid
        depth = dep[:, 0, 0].copy() if s['nz'] > 1 else None
    if s['rect']:
        lon, lat = lon[0, :].copy(), lat[:, 0].copy()
    return cls(lon.astype(np.float32), lat.astype(np.float32), depth=depth, time=time, mesh=mesh)


def fields(s, scale):
    data = [np.array(d, dtype=np.float32) for d in s['data']]
    if s['nz'] == 1:
        data = [d[:, 0] for d in data]
    grid = make_grid(s, scale)
    t0 = np.array([0., T1])
    vec = s['meth'] in ('uv', 'bgrid_velocity', 'cgrid_velocity')
    three = vec and s['nz'] > 1
    method = {'uv': ('linear',) * 3, 'bgrid_velocity': ('bgrid_velocity', 'bgrid_velocity', 'bgrid_w_velocity')}.get(s['meth'], (s['meth'],) * 3)

    def fld(name, k):
        return Field(name, data[k], grid=grid, interp_method=method[k], gridindexingtype=s['ix'])
    if vec:
        U, V = fld('U', 0), fld('V', 1)
        fs = FieldSet(U, V, fields={'W': fld('W', 2)} if three else None)
    else:
        axis = np.array([-2000, 2000], dtype=np.float32)
        fs = FieldSet(*[Field(n, np.full((2, 2), k, dtype=np.float32), lon=axis, lat=axis, mesh='flat') for k, n in enumerate('UV')])
        fs.add_field(fld('F', 0))
        # the field as a component of a vector, whose other components are interpolated in another way
        A = [Field(n, np.zeros((2, 2), dtype=np.float32), lon=axis, lat=axis, mesh='flat', gridindexingtype=s['ix'], interp_method='nearest' if s['meth'] == 'linear' else 'linear') for n in ('A', 'C')]
        fs.add_vector_field(VectorField('G', A[0], fs.F) if s['form'] % 4 == 2 else VectorField('G', A[0], A[1], fs.F))
    bd = np.array([s['bv'], s['bv']], dtype=np.float32)
    fs.add_field(Field('B', bd, lon=np.array(s['bx'], dtype=np.float32) * scale, lat=np.array(s['by'], dtype=np.float32) * scale, time=t0, mesh='flat'))
    return fs, vec, three


def run(s):
    scale = s['scale']
    fs, vec, three = fields(s, scale)
    base = JITParticle if s['mode'] == 'jit' else ScipyParticle

    class SampParticle(base):
        s1 = Variable('s1', dtype=np.float32, initial=-99)
        s2 = Variable('s2', dtype=np.float32, initial=-99)
        s3 = Variable('s3', dtype=np.float32, initial=-99)
        b = Variable('b', dtype=np.float32, initial=-99)
        err = Variable('err', dtype=np.int32, initial=0)
    vis = s['visits']
    n = s['np']
    v0 = vis[0]
    pset = ParticleSet(fs, pclass=SampParticle, lon=[v0['hx'] / 16 * scale] * n, lat=[v0['hy'] / 16 * scale] * n, depth=[v0['hz'] / 64] * n,
                       time=[s['tau']] * n, lonlatdepth_dtype=np.float64)
    home = {}

    def recover(code):
        def f(particle, fieldset, time):
            particle.err = particle.err + code
            if particle.err > 100:
                raise RuntimeError('the home place is not found')
            v = vis[home[int(particle.id)]]
            particle.lon, particle.lat, particle.depth = v['hx'] / 16 * scale, v['hy'] / 16 * scale, v['hz'] / 64
        return f
    recovery = {ErrorCode.ErrorOutOfBounds: recover(1), ErrorCode.ErrorThroughSurface: recover(10)}
    kernel = pset.Kernel((Vector3 if three else Vector2) if vec else (Scalar, ScalarAfter, SecondOfVector, ThirdOfVector)[s['form'] % 4])
    out = []
    first = min(int(p.id) for p in pset)
    for k in range(len(vis)):
        for p in pset:
            m = (k + 3 * (int(p.id) - first)) % len(vis)
            home[int(p.id)] = m
            v = vis[m]
            p.lon, p.lat, p.depth = v['x'] / 16 * scale, v['y'] / 16 * scale, v['z'] / 64
            p.err = 0
            p.s1 = p.s2 = p.s3 = p.b = -99
        pset.execute(kernel, runtime=0, dt=0, recovery=recovery)
        for p in pset:
            out.append([home[int(p.id)], int(p.err), [float(p.s1)] + ([float(p.s2)] if vec else []) + ([float(p.s3)] if three else []), float(p.b)])
    direct = []
    if s['mode'] == 'scipy':
        for m, v in enumerate(vis):
            f = (fs.UVW if three else fs.UV) if vec else (fs.F, fs.F, fs.G, fs.G)[s['form'] % 4]
            try:
                r = f[s['tau'], v['z'] / 64, v['y'] / 16 * scale, v['x'] / 16 * scale]
                r = [float(q) for q in np.atleast_1d(r)]
                direct.append([m, 0, r if vec else r[-1:]])
            except FieldOutOfBoundSurfaceError:
                direct.append([m, 10, []])
            except FieldOutOfBoundError:
                direct.append([m, 1, []])
    return dict(out=out, direct=direct)
