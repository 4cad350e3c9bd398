"""C08-C10 share TimeWindow.tla and its replay."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import cfg_text, generate, model_check, replay  # noqa: E402

INVS = ['WindowCovers', 'WindowValid', 'Progress', 'Hits', 'Periodic']
MAPS = [(1, 0), (3600, 0), (0.5, -8), (86400, 10000000), (2, 5)]
DEFAULTS = dict(Axes='{<<0,4>>}', Pers='{0}', Exts='{FALSE}', Defers='{FALSE}', Rels='{0}', Dts='{2}', Spans='{6}', MaxP=1,
                MaxCalls=1, Cols='{0}', Moves='{0}', Rows='{0}', MovesY='{0}', NF=1, Uses='{0}', Again='FALSE', Emit='FALSE')
AXES = '{<<0,4>>,<<0,2,6>>,<<0,4,8,12>>,<<2,4,10,12,14>>,<<-4,0,8>>,<<-6,-2,0,2,10>>}'
FV = [3, 8, -2, 5, 9, 0, 4]


def consts(**kw):
    c = dict(DEFAULTS)
    for k in kw:
        assert k in c, k
    c.update(kw)
    return c


def models(c, runs):
    for name, con, must in runs:
        c.model(name, model_check('TimeWindow', cfg_text(constants=consts(**con), invariants=INVS), timeout=700), must)


def gen(c, con, num, k):
    return generate('TimeWindow', cfg_text(constants=consts(Emit='TRUE', **con), invariants=INVS), num, c.seed * 100 + k, parts=4)


def scenario(b, mode, i, **opts):
    scale, off = MAPS[i % len(MAPS)]
    return dict(sc=b['sc'], log=b['log'], bad=b['bad'], mode=mode, scale=scale, off=off, fv=FV,
                ncalls=sum(1 for e in b['log'] if e['e'] == 'call'), **opts)


def tries(log):
    out = [[]]
    for e in log:
        if e['e'] == 'retry':
            out.append([])
        else:
            out[-1].append(e)
    return out


def expected(log):
    per = {}
    for e in log:
        if e['e'] == 'step':
            per.setdefault(str(e['i']), []).append([e['t'], e['h'], e['x'], e['y']] + [v[0] / v[1] if e['u'] in (0, k + 1) else None for k, f in enumerate(e['v']) for v in f])
    return per


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-500:])
    t = tries(s['log'])
    if len(t) != len(r['ok']):
        return 'execute failed in %s of %s particle sets, the specification has %s' % ([o['exc'] for o in r['ok']], len(r['ok']), len(t) - 1)
    for k, (log, o) in enumerate(zip(t, r['ok'])):
        m = judge_one(s, log, o, s['bad'] if k == len(t) - 1 else True)
        if m:
            return ('after %d caught errors: ' % k if k else '') + m
    return None


def judge_one(s, log, o, bad):
    if bool(o['exc']) != bad:
        return 'time extrapolation error %s, the specification has %s' % (o['exc'], bad)
    e = expected(log)
    for i in sorted(set(e) | set(o['steps'])):
        a, w = o['steps'].get(i, []), e.get(i, [])
        if bad:   # how far other particles were when the error was raised is not specified
            m = min(len(a), len(w))
            a, w = a[:m], w[:m]
        if len(a) != len(w):
            return 'particle %s made %d timesteps instead of %d: %s / %s' % (i, len(a), len(w), [x[:2] for x in a], [x[:2] for x in w])
        for x, y in zip(a, w):
            if any(abs(p - q) > 1e-5 * abs(q) + 1e-3 for p, q in zip(x, y) if q is not None):
                return 'particle %s: [time, dt, column, row, samples at t, t+dt/2, t+dt] are %s instead of %s' % (i, x, y)
    return None


WIDE = dict(Axes=AXES, Rels='{-12,-4,0,2,6,8,14,30}', Dts='{-8,-4,-2,2,4,8,6}', Spans='{2,6,10,20}', MaxP=3, MaxCalls=3,
            Again='TRUE', Cols='0..16', Moves='{-3,-1,0,1,2,5}', Rows='0..8', MovesY='{-1,0,1,3}')
CHUNKS = [['auto'], [[2, 3]], [[3, 2]], [[2, 3], False], [False, [2, 3]], [[2, 3], [3, 2]], ['auto', [2, 2]], [[2, 2], 'auto'], [[5, 2]], [[2, 8]]]


def conformance(c, runs):
    """runs: (constants, number, fn(i) -> scenario options)"""
    for k, (con, num, opts) in enumerate(runs):
        scs = []
        for i, b in enumerate(gen(c, con, num, k + 1)):
            for mode in ('scipy', 'jit'):
                scs.append(scenario(b, mode, i + k, **opts(i)))
        c.compare(scs, replay('drv_time', 'run', scs), judge)
