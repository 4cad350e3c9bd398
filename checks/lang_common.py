"""C15 and C16 share KernelLang.tla and its replay."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import MachineryError, cfg_text, generate, model_check, replay  # noqa: E402

os.environ['VERIF_CCOPT'] = '-O1'  # (every program is compiled once only)
INVS = ['WellFormed', 'Typed', 'Concat', 'NoLeak']
ALLK = '{"=","+=","-=","*=","tup","multi","=c","uv","if","loop","loopc","break","pass"}'
WIDE = dict(Leaves='{"a","b","i","x","u","v","kon","time","dt","P","S"}', Bins='{"+","-","*","/","**","min","max"}', Uns='{"neg","fabs","floor"}',
            Conds='{"and","or","&","|","not"}', Cmps='{"<","<=",">",">=","==","!="}', Kinds=ALLK, Targets='{"a","b","i","u","v"}',
            CTargets='{"a","b","i"}', Consts='{"c1","c2","c3","chalf","cm"}', MaxTok=60, MinStm=3, MaxStm=6, Depth=2, EDepth=2,
            Inits='{<<64,-96,192,0>>,<<-160,224,-320,128>>,<<0,32,448,192>>}', NP=2, Steps=2, Cuts=1, Reps='{1}', Emit='FALSE')


def consts(**kw):
    c = dict(WIDE)
    for k in kw:
        assert k in c, k
    c.update(kw)
    return c


def models(c, runs):
    for name, con, must in runs:
        c.model(name, model_check('KernelLang', cfg_text(constants=consts(**con), invariants=INVS), timeout=700), must)


def gen(c, con, num, k):
    """Programs with a specified result: distinct ones"""
    bs = generate('KernelLang', cfg_text(constants=consts(Emit='TRUE', **con), invariants=['WellFormed', 'Typed']), num, c.seed * 100 + k, parts=4, depth=600)
    seen, out = set(), []
    for b in bs:
        key = tuple(b['prog'])
        if key not in seen:
            seen.add(key)
            out.append(b)
    return out


def judge(s, r):
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-500:])
    o = r['ok']
    for n, (a, w) in enumerate(zip(o['steps'], s['log'][1:])):
        if a is not None and a != w:
            return '%s mode: after time step %d, variables a, b, i (times 64) of the particles are %s instead of %s for\n%s' % (s['mode'], n + 1, a, w, o['src'])
    return None


def conformance(c, runs):
    """runs: (constants, number of walks, maximum number of programs)"""
    tot = 0
    for k, (con, num, most) in enumerate(runs):
        bs = gen(c, con, num, k + 1)[:most]
        if len(bs) < most // 3:
            raise MachineryError('only %d programs with a specified result' % len(bs))
        scs = [dict(b, mode=mode, form=i + k, how=i // 2) for i, b in enumerate(bs) for mode in ('scipy', 'jit')]
        c.compare(scs, replay('drv_lang', 'run', scs), judge)
        tot += len(bs)
    c.extra['programs'] = tot
