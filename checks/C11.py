#!/usr/bin/env python3
"""C11: scalar fields are sampled as their interpolation method prescribes, with the right errors outside the grid."""
import samp_common as L
from vlib import run_check


def main(c):
    L.models(c, [
        ('rectilinear', dict(Grids='{1}', Verts='{"none","z"}')),
        ('curvilinear', dict(Grids=c.n('{6}', '{4,5,6,7,8,9,10}'), Verts=c.n('{"none","s"}', '{"none","z","s"}'))),
        ('mom5, pop', dict(Grids='{1}', Verts='{"z"}', Index='{"mom5","pop"}', Methods='{"linear"}')),
    ])
    L.conformance(c, [
        (dict(), c.n(120, 3000)),
        (dict(Grids='{4,5,6,7,8,9,10}', Verts='{"s","z"}', Methods='{"linear","nearest"}'), c.n(40, 1500)),
        (dict(Methods='{"linear_invdist_land_tracer"}', Verts='{"none","z"}'), c.n(40, 1500)),
        (dict(Methods='{"linear"}', Verts='{"z"}', Index='{"mom5","pop"}'), c.n(30, 600)),
    ])


if __name__ == '__main__':
    run_check(main, 'C11')
