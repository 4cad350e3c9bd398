"""Replays behaviours of Combine.tla: nested and summed fields, sampled at a sequence of places and times."""
import numpy as np

from parcels import ErrorCode, Field, FieldSet, JITParticle, NestedField, ParticleSet, ScipyParticle, SummedField, Variable
from parcels.field import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError


def KUV(particle, fieldset, time):
    (particle.a, particle.b) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]


def KUVW(particle, fieldset, time):
    (particle.a, particle.b, particle.c) = fieldset.UVW[time, particle.depth, particle.lat, particle.lon]


def KUVp(particle, fieldset, time):
    (particle.a, particle.b) = fieldset.UV[particle]


def KUVWp(particle, fieldset, time):
    (particle.a, particle.b, particle.c) = fieldset.UVW[particle]


def KP(particle, fieldset, time):
    particle.a = fieldset.P[time, particle.depth, particle.lat, particle.lon]


def KQ(particle, fieldset, time):
    particle.a = fieldset.Q[particle]


def KPQ(particle, fieldset, time):
    particle.a = 2 * fieldset.P[time, particle.depth, particle.lat, particle.lon] - fieldset.Q[time, particle.depth, particle.lat, particle.lon] * 4


def component(s, name, c, cf, k, fieldtype=None):
    x0, x1, y0, y1, z0, z1 = s['boxes'][c['b'] - 1]
    r = s['ranges'][str(c['t'])] if isinstance(s['ranges'], dict) else s['ranges'][c['t']]
    nx = 2 + (c['s'] + k) % 3
    lon, lat = np.linspace(x0, x1, nx), np.linspace(y0, y1, 3)
    lon[1:-1] = np.round(lon[1:-1] * 4) / 4
    depth = None if z0 == z1 else np.linspace(z0, z1, 3)
    time = None if r[0] == r[1] else np.array([r[0], (3 * r[0] + r[1]) / 4, r[1]])
    zz = np.zeros(1) if depth is None else depth
    tt = np.zeros(1) if time is None else time
    d = (cf[0] / 2 + cf[1] * lon[None, None, None, :] + cf[2] * lat[None, None, :, None] + cf[3] * zz[None, :, None, None] + cf[4] / 2 * tt[:, None, None, None])
    if depth is None:
        d = d[:, 0]
    if time is None:
        d = d[0]
    kw = dict(fieldtype=fieldtype) if fieldtype else {}
    return Field(name, d.astype(np.float32), lon=lon.astype(np.float32), lat=lat.astype(np.float32), depth=None if depth is None else depth.astype(np.float32),
                 time=time, mesh='spherical' if c['sph'] else 'flat', allow_time_extrapolation=False if time is not None else None, **kw)


def add(fs, tree):
    """Sum of the fields, added in various groupings."""
    if len(fs) == 1:
        return SummedField('one', fs)
    if tree == 0:
        return SummedField('all', fs)
    if tree == 1:
        s = fs[0]
        for f in fs[1:]:
            s = s + f
        return s
    if tree == 2:
        s = fs[-1]
        for f in fs[-2::-1]:
            s = f + s
        return s
    h = len(fs) // 2
    a = fs[0] if h == 1 else add(fs[:h], 1)
    b = fs[h] if len(fs) - h == 1 else add(fs[h:], 2)
    return a + b


def run(s):
    kinds = s['kinds']
    names = ['U', 'V', 'W'][:kinds['d']]
    form = s['form']
    V = []
    for d, n in enumerate(names):
        V.append([component(s, n if form % 2 else '%s%d' % (n, k), v[d], s['vcoefs'][k][d], k, None if form % 2 else n) for k, v in enumerate(s['vel'])])
    if kinds['uv'] == 'nested':
        top = [NestedField(n, v) for n, v in zip(names, V)]
    elif len(V[0]) == 1 and form % 3 == 0:
        top = [v[0] for v in V]
        for n, f in zip(names, top):
            f.name = n
    else:
        top = [add(v, s['tree']) for v in V]
    fs = FieldSet(top[0], top[1], fields={'W': top[2]} if kinds['d'] == 3 else None)
    C = [component(s, 'C%d' % k, c, s['coefs'][k], k) for k, c in enumerate(s['comps'])]

    def combine(name, kind, idx, P=None):
        f = [C[i - 1] for i in idx]
        if kind == 'nested':
            return NestedField(name, f)
        if P is not None and form % 2:
            # extend the other sum by the further components
            t = P
            for g in f[len(P):]:
                t = t + g
            return t
        return add(f, s['tree'])
    P = combine('P', kinds['p'], s['pidx'])
    Q = combine('Q', kinds['q'], s['qidx'], P if kinds['p'] == 'summed' and s['nq'] < len(C) else None)
    fs.add_field(P, 'P')
    fs.add_field(Q, 'Q')
    jit = s['mode'] == 'jit'

    class CombParticle(JITParticle if jit else ScipyParticle):
        a = Variable('a', dtype=np.float64, initial=1e30)
        b = Variable('b', dtype=np.float64, initial=1e30)
        c = Variable('c', dtype=np.float64, initial=1e30)
        err = Variable('err', dtype=np.int32, initial=0)
    n = 1 + form % 3
    vis = s['visits']
    pset = ParticleSet(fs, pclass=CombParticle, lon=[0.] * n, lat=[0.] * n, depth=[0.] * n, time=[0.] * n, lonlatdepth_dtype=np.float64)

    def recover(code):
        def f(particle, fieldset, time):
            particle.err = code
            particle.a = particle.b = particle.c = -99
            particle.delete()
        return f
    log = {}

    def recover2(code):
        def f(particle, fieldset, time):
            log[int(particle.id)] = code
            particle.delete()
        return f
    recovery = {ErrorCode.ErrorOutOfBounds: recover2('bounds'), ErrorCode.ErrorThroughSurface: recover2('surface'), ErrorCode.ErrorTimeExtrapolation: recover2('time')}
    ks = dict(uv=(KUVW if kinds['d'] == 3 else KUV) if form % 2 else (KUVWp if kinds['d'] == 3 else KUVp), p=KP, q=KQ, pq=KPQ)
    if jit:  # (every kernel is compiled: some of them)
        ks = {w: ks[w] for w in (('uv', 'pq'), ('p', 'q'), ('uv',), ('pq',))[s['some'] % 4]}
    out = []
    kernels = {}
    for m in range(len(vis)):
        for what, k in ks.items():
            log.clear()
            v = [vis[(m + 2 * i) % len(vis)] for i in range(n)]
            pset = ParticleSet(fs, pclass=CombParticle, lon=[w['x'] / 2 for w in v], lat=[w['y'] / 2 for w in v], depth=[w['z'] / 2 for w in v],
                               time=[float(w['t']) for w in v], lonlatdepth_dtype=np.float64)
            ids = [int(i) for i in pset.id]
            if what not in kernels:
                kernels[what] = pset.Kernel(k)
            pset.execute(kernels[what], runtime=0, dt=0, recovery=recovery)
            got = {int(p.id): [float(p.a), float(p.b), float(p.c)] for p in pset}
            for i in range(n):
                out.append([(m + 2 * i) % len(vis), what, log.get(ids[i], 'none'), got.get(ids[i])])
    if not jit:
        for m, w in enumerate(vis):
            for what, f in (('uv', fs.UVW if kinds['d'] == 3 else fs.UV), ('p', fs.P), ('q', fs.Q)):
                e, r = 'none', None
                try:
                    r = [float(q) for q in np.atleast_1d(f[float(w['t']), w['z'] / 2, w['y'] / 2, w['x'] / 2])] + [-99., -99.]
                except FieldOutOfBoundSurfaceError:
                    e = 'surface'
                except FieldOutOfBoundError:
                    e = 'bounds'
                except TimeExtrapolationError:
                    e = 'time'
                out.append([m, what, e, r])
    return dict(out=out)
