#!/usr/bin/env python3
"""C12: velocities and tracers on staggered (B- and C-) grids are sampled as the conventions prescribe."""
import samp_common as L
from vlib import run_check


def main(c):
    L.models(c, [
        ('C-grid', dict(Grids=c.n('{5}', '{1,2,3,5,6,7,8}'), Verts='{"none","z"}', Methods='{"cgrid_velocity"}')),
        ('B-grid', dict(Grids='{1}', Verts='{"z"}', Index='{"nemo","mom5","pop"}', Methods='{"bgrid_velocity","bgrid_tracer"}')),
    ])
    L.conformance(c, [
        (dict(Methods='{"cgrid_velocity","bgrid_velocity","uv"}'), c.n(110, 3000)),
        (dict(Methods='{"cgrid_tracer","bgrid_tracer"}'), c.n(40, 1000)),
        (dict(Grids='{1,2,3}', Methods='{"cgrid_velocity"}', Verts='{"none","z","zdown"}', Index='{"mitgcm"}'), c.n(40, 1000)),
        (dict(Methods='{"bgrid_velocity","bgrid_tracer"}', Verts='{"z"}', Index='{"mom5","pop"}'), c.n(50, 1500)),
    ])


if __name__ == '__main__':
    run_check(main, 'C12')
