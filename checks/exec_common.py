"""The checks of C01-C04 share the replay of Execute.tla; they differ in the constants (which part of the state
machine is explored) and in what is compared."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import execlib as X  # noqa: E402
from vlib import cfg_text, generate, model_check, replay  # noqa: E402

MAPS = [(1, 0), (3, 0), (0.5, -7), (86400, 1000000), (0.25, 3), (60, -600), (1, 1.5e8), (0.5, -3e6)]


def models(c, runs):
    """runs: [(name, constants, actions that must be taken)]: exhaustive TLC runs of the specification"""
    for name, con, must in runs:
        mc = model_check('Execute', cfg_text(constants=X.consts(**con), invariants=X.INVS), timeout=700)
        c.model(name, mc, must)


def conformance(c, gens, what=('att', 'cb', 'final', 'out')):
    """gens: [(constants, number of behaviours)]: behaviours generated by TLC and replayed in both modes"""
    for gi, (con, num) in enumerate(gens):
        g = generate('Execute', cfg_text(constants=X.consts(Emit='TRUE', **con), invariants=X.INVS), num,
                     c.seed * 100 + gi, parts=4, timeout=700)
        sc = []
        for i, b in enumerate(g):
            for m in ('scipy', 'jit'):
                scale, off = MAPS[(i + gi) % len(MAPS)]
                sc.append(X.scenario(b, m, scale, off, raising=i % 2 == 1, f32=i % 3 == 0))
        res = replay('drv_exec', 'run', sc)
        c.compare(sc, res, lambda s, r: X.judge(s, r, what))
    c.assumptions.append('kernel outcomes are scripted per particle; ticks are mapped to seconds exactly representable '
                         'in double precision; field sampling itself is decided by other properties')
