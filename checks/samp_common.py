"""C11 and C12 share Sampling.tla and its replay."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import cfg_text, generate, model_check, replay  # noqa: E402

INVS = ['Continuous', 'Nodes', 'Bounded', 'FaceFlow', 'Positive', 'Search']
SCALAR = '{"linear","nearest","linear_invdist_land_tracer"}'
STAGGER = '{"cgrid_tracer","bgrid_tracer","bgrid_velocity","cgrid_velocity"}'
OUTS = '{"west","east","south","north","above","below"}'
WIDE = dict(Grids='1..10', Verts='{"none","z","zdown","s"}', Methods=SCALAR, Index='{"nemo"}', Taus='{0,2,5,8}', Outs=OUTS, Seeds='0..30', MaxV=8, Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    for k in kw:
        assert k in c, k
    c.update(kw)
    return c


def models(c, runs):
    for name, con in runs:
        r = model_check('Sampling', cfg_text(constants=consts(**dict(dict(MaxV=1, Seeds='{1}', Taus='{3}', Outs='{}'), **con)), invariants=INVS), timeout=700, coverage=False)
        c.model(name, r)


def frac(q):
    if q['terms']:
        return sum(v / d for v, d in q['terms']) / sum(1 / d for v, d in q['terms']) / q['d']
    return q['n'] / q['d']


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-700:])
    o = r['ok']
    code = {'none': 0, 'bounds': 1, 'surface': 10}
    for m, err, val, b in o['out'] + [x + [None] for x in o['direct']]:
        v = s['visits'][m]
        how = 'direct access' if b is None else 'kernel'
        where = 'at (%s, %s, %s) x scale' % (v['x'] / 16, v['y'] / 16, v['z'] / 64)
        if err != code[v['err']]:
            return '%s: %s: error %s instead of %s' % (where, how, err, v['err'])
        if b is None and err:
            continue
        w = [frac(q) for q in v['v']]
        if len(w) != len(val) or any(not abs(p - q) <= 1e-4 * abs(q) + 2e-4 for p, q in zip(val, w)):
            return '%s: %s sampled %s instead of %s (%s, %s)' % (where, how, val, w, s['meth'], s['ix'])
        if b is not None and not abs(b - frac(v['b'])) <= 1e-4 * abs(b) + 2e-4:
            return '%s: second field sampled %s instead of %s' % (where, b, frac(v['b']))
    return None


def conformance(c, runs):
    for k, (con, num) in enumerate(runs):
        bs = generate('Sampling', cfg_text(constants=consts(Emit='TRUE', **con)), num, c.seed * 100 + k + 1, parts=4)
        scs = [dict(b, mode=mode, form=i, scale=[1, 0.25, 100][(i + k) % 3], np=1 + i % 3) for i, b in enumerate(bs) for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_samp', 'run', scs), judge)
