#!/usr/bin/env python3
"""C16: concatenated kernels are executed one after the other, as one."""
import lang_common as L
from C15 import SMALL
from vlib import run_check


def main(c):
    L.models(c, [
        ('concatenation', dict(SMALL, Leaves='{"a","u"}', Bins='{"+"}', Kinds='{"=","if","+="}', Targets='{"a","u"}', Depth=1, MaxTok=c.n(5, 7), MaxStm=3, Cuts=3, Reps='{1,2}'), ['Cut', 'Timestep']),
    ])
    L.conformance(c, [
        (dict(Cuts=4, Reps='{1,2}', MaxStm=6), c.n(260, 4000), c.n(110, 1500)),
        (dict(Cuts=3, Reps='{1,2,3}', MinStm=2, MaxStm=4, Kinds='{"=","+=","tup","multi","uv","loopc","=c"}', MaxTok=30), c.n(160, 2000), c.n(80, 800)),
    ])


if __name__ == '__main__':
    run_check(main, 'C16')
