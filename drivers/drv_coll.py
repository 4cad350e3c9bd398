"""Replays behaviours of Collection.tla on ParticleSets."""
import numpy as np

from parcels import Field, FieldSet, JITParticle, ParticleSet, ScipyParticle, Variable


def StepKernel(particle, fieldset, time):
    particle.g = 2 * fieldset.F[time, particle.depth, particle.lat, particle.lon]
    particle.x += particle.s
    if particle.k == 1:
        particle.delete()
    else:
        if particle.k > 1:
            particle.k -= 1


class SP(ScipyParticle):
    x = Variable('x', dtype=np.float32, initial=0)
    s = Variable('s', dtype=np.float64, initial=0)
    k = Variable('k', dtype=np.int32, initial=0)
    g = Variable('g', dtype=np.float32, initial=0)


class JP(JITParticle):
    x = Variable('x', dtype=np.float32, initial=0)
    s = Variable('s', dtype=np.float64, initial=0)
    k = Variable('k', dtype=np.int32, initial=0)
    g = Variable('g', dtype=np.float32, initial=0)


NAMES = ['id', 'x', 's', 'k', 'g', 'lon', 'lat', 'depth']


def run(s):
    jit = s['mode'] == 'jit'
    ax = np.array([-1, 100], dtype=np.float32)
    z = np.zeros((2, 2), dtype=np.float32)
    fs = FieldSet(Field('U', z, lon=ax, lat=ax, mesh='flat'), Field('V', z, lon=ax, lat=ax, mesh='flat'))
    fx = np.array([-1, 3, 50, 101], dtype=np.float32)
    fs.add_field(Field('F', np.array([fx, fx, fx]), lon=fx, lat=np.array([-1, 5, 101], dtype=np.float32), mesh='flat'))
    sets = {}
    base = [None]

    def row(p):
        return [float(getattr(p, n)) for n in NAMES]

    def indices(ps, ids):
        return [int(np.where(np.array(ps.collection.data['id']) == i + base[0])[0][0]) for i in ids]

    def state():
        res, odd = {}, []
        for a, ps in sets.items():
            it = [row(p) for p in ps]
            alt = dict(index=[row(ps[i]) for i in range(len(ps))],
                       reversed=[row(p) for p in reversed(ps)][::-1],
                       collection=[row(p) for p in ps.collection],
                       reversed_collection=[row(p) for p in reversed(ps.collection)][::-1],
                       arrays=[list(map(float, q)) for q in zip(*[np.array(getattr(ps, n)) for n in NAMES])],
                       subset=[row(p) for p in ps.indexed_subset(list(range(len(ps))))])
            for n, v in alt.items():
                if v != it:
                    odd.append('set %s: access by %s gives %s, iteration gives %s' % (a, n, v, it))
            if len(ps) != len(it) or ps.size != len(it):
                odd.append('set %s: length %d, size %d, %d particles' % (a, len(ps), ps.size, len(it)))
            if jit:
                ps.collection.cstruct()
            res[a] = it
        return res, odd
    out = []
    for n, op in enumerate(s['log']):
        a = op['a']
        ps = sets.get(a)
        how = op.get('how')
        found = None
        if op['op'] == 'new':
            m = len(op['ids'])
            ids = np.array(op['ids'], dtype=np.int64)
            vals = op['first'] + ids
            kw = dict(lon=vals / 2, lat=vals / 4, depth=np.zeros(m), x=vals % 3, s=1. + vals % 2, k=np.array(op['k'], dtype=np.int32))
            if not op['plain'] or s['form'] % 2:
                kw['pid_orig'] = ids
            sets[a] = ParticleSet(fs, pclass=JP if jit else SP, time=np.zeros(m), lonlatdepth_dtype=np.float64, **kw)
            if base[0] is None and m:
                base[0] = int(min(p.id for p in sets[a])) - op['first'] - min(op['ids'])
        elif op['op'] == 'add':
            if (n + s['form']) % 2:
                ps.add(sets[op['b']])
            else:
                ps += sets[op['b']]
        elif op['op'] == 'rem':
            idx = indices(ps, op['ids'])
            raw = [np.int64(i + base[0]) for i in op['ids']]
            if how == 'one':
                ps.remove_indices(idx[0])
            elif how == 'idx':
                ps.remove_indices(idx if n % 2 else np.array(idx[::-1]))
            elif how == 'dup':
                ps.remove_indices(idx + idx[:1])
            elif how == 'neg':
                ps.remove_indices([i - len(ps) for i in idx])
            elif how == 'bool':
                b = np.zeros(len(ps), dtype=bool)
                b[idx] = True
                ps.remove_booleanvector(b)
            elif how == 'ids':
                ps.collection.remove_multi_by_IDs(raw[::-1] if n % 2 else np.array(raw))
            elif how == 'oneid':
                ps.collection.remove_single_by_ID(raw[0])
            elif how == 'sub':
                c = ps.collection
                c -= ps[idx[0]]
            elif how == 'flag':
                if n % 3 == 0:
                    ps[idx[0]].delete()
                elif n % 3 == 1:
                    ps.collection.delete_by_ID(raw[0])
                else:
                    del ps.collection[idx[0]]
            else:
                raise AssertionError(how)
        elif op['op'] == 'look':
            raw = [np.int64(i + (base[0] or 0)) for i in op['ids']]
            if op['one']:
                try:
                    found = [row(ps.collection.get_single_by_ID(raw[0]))]
                except (ValueError, IndexError):
                    found = []
            else:
                found = [row(p) for p in ps.collection.get_multi_by_IDs(raw[::-1] if n % 2 else np.array(raw))]
        elif op['op'] == 'select':
            idx = ps.data_indices('x', [op['v']] if n % 2 else op['v'], invert=op['inv'])
            found = [row(p) for p in ps.indexed_subset(idx)]
        elif op['op'] == 'set':
            i = indices(ps, [op['id']])[0]
            if how == 'index':
                ps[i].x = op['v']
            elif how == 'iter':
                for q, p in enumerate(ps):
                    if q == i:
                        p.x = op['v']
            elif how == 'array':
                ps.x[i] = op['v']
            elif how == 'id':
                ps.collection.get_single_by_ID(np.int64(op["id"] + base[0])).x = op['v']
            elif how == 'all':
                for p in ps:
                    p.x = op['v']
            else:
                raise AssertionError(how)
        elif op['op'] == 'run':
            ps.execute(StepKernel, runtime=0, dt=0)
        st, odd = state()
        out.append(dict(st={str(k): v for k, v in st.items()}, odd=odd, found=found))
    return dict(out=out, base=base[0])
