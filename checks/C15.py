#!/usr/bin/env python3
"""C15: the language of kernels means the same in JIT mode as in Python."""
import lang_common as L
from vlib import run_check

SMALL = dict(Bins='{"/"}', Uns='{}', Conds='{"&"}', Cmps='{"<"}', Consts='{"c3"}', CTargets='{"b"}', MaxTok=12, MinStm=1, MaxStm=2, EDepth=1,
             Inits='{<<64,-96,192,0>>,<<-160,224,-320,128>>}', NP=1, Steps=2)


def main(c):
    L.models(c, [
        ('branches and tuples', dict(SMALL, Leaves='{"i","u"}', Kinds='{"=","if","tup"}', Targets='{"i","u"}', Depth=1, MaxTok=c.n(5, 8)), ['OneStm', 'Timestep', 'Divisor']),
        ('loops and fields', dict(SMALL, Leaves='{"a","P"}', Bins='{"+"}', Kinds='{"+=","loopc","break"}', Targets='{"a"}', Depth=1, MaxStm=1, MaxTok=c.n(3, 4)), ['OneStm', 'Timestep', 'Loc']),
    ])
    L.conformance(c, [
        (dict(), c.n(260, 4000), c.n(90, 1500)),
        (dict(Kinds='{"=","+=","-=","*=","tup","multi"}', EDepth=3, MaxTok=50), c.n(200, 2000), c.n(60, 700)),
        (dict(Kinds='{"=","+=","if","loopc","break","=c"}', Depth=3, MinStm=2, MaxTok=70), c.n(120, 2000), c.n(60, 700)),
    ])


if __name__ == '__main__':
    run_check(main, 'C15')
