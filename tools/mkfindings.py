#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check writes it)."""
import json
import os
F = [  # (property, commit, what failed)
    ('C03', '2a6f342', 'fixed: repeated particles were released at the current position and with current Variables of arrays shared with the running set'),
    ('C07', '9e4e27a', 'looking up several particle ids in a sorted collection returned wrong indices (_recursive_ID_lookup)'),
    ('C07', '7da608c', 'creating an empty ParticleSet reset the id counter, so that ids were given twice'),
    ('C07', 'b9180ad', 'adding to an empty ParticleSet shared the arrays of the other set and kept a wrong sorted flag'),
    ('C07', 'c1730d7', 'removing with an index given twice made the particle count wrong'),
    ('C07', 'COMMIT:marked for deletion outside', 'particles marked for deletion outside of a kernel (particle.delete(), delete_by_ID, del collection[i]) were not removed but executed'),
    ('C04', 'eabdacb', 'the warning on mismatching particle times raised instead of warning and aborted the output'),
    ('C04', '39b204b', "'once' Variables of particles deleted before an output time were missing or given to other particles"),
    ('C04', 'f921bdb', "output in a directory with 'once' in its name was taken for files of 'once' Variables"),
    ('C04', 'dc31d98', 'trajectories written more than once at the same time could not be exported or were mixed up'),
    ('C01', '8e04bce', 'with dt=0, particles that had succeeded were executed again when another particle failed'),
    ('C13', 'bf98a52', 'in JIT mode, errors of all but the last VectorField in a SummedField were ignored'),
    ('C02', '47161e5', 'in JIT mode, a next dt set in a timestep that fails or is repeated leaked to the next particle'),
    ('C11', 'ed6ad68', 'linear_invdist_land_tracer used the wrong grid points in Scipy mode'),
    ('C03', '8ae7f29', 'with dt=0 or runtime=0, repeated particles were released again'),
    ('C09', 'COMMIT:read time series', 'files with different numbers of timesteps could not be read'),
    ('C09', 'COMMIT:end of a period', 'deferred time_periodic Fields: wrong value at the end of a period (Scipy), endless recursion in JIT, and wrong or endless after a run in another period'),
    ('C08', 'COMMIT:start later than the time origin', 'fully loaded time_periodic Fields that start later than the time origin were sampled with a shifted period'),
    ('C08', 'COMMIT:default allow_time_extrapolation', 'FieldSet.from_data used the default allow_time_extrapolation of the first Field for all Fields'),
    ('C08', 'COMMIT:last, periodic time step of fully', 'fully loaded time_periodic Fields with a period longer than the series were constant, or crashed JIT mode, in the last part of the period'),
    ('C09', 'COMMIT:start backward runs', 'backward runs with deferred loading that start between two time slices loaded the wrong slices'),
    ('C09', 'COMMIT:load the first time step', 'deferred time_periodic Fields with a period longer than the series closed it with the wrong slice if a file has several'),
    ('C08', 'COMMIT:only share a Grid', 'Fields with nearly equal time axes, or different chunking, deferral or time_periodic, shared one Grid, giving wrong values or crashes'),
    ('C15', 'COMMIT:keep the grouping of comparisons', 'in JIT mode, parentheses around comparisons and boolean operators were lost'),
    ('C15', 'COMMIT:support the logical operators', 'the documented operators & and | failed in JIT mode'),
    ('C15', 'COMMIT:array variables in a JIT kernel', 'in JIT mode, local arrays of one kernel removed the variables of later kernels with the same name'),
    ('C15', 'COMMIT:tests of if and while statements', 'in JIT mode, while loops ran once before their test, and Fields in a test were evaluated at the wrong moment'),
    ('C15', 'COMMIT:do not round the division', 'in JIT mode, the division of integers was rounded'),
    ('C15', 'COMMIT:assign tuples at once', 'in JIT mode, tuples were assigned one by one (a, b = b, a), and only the first target of a = b = c was assigned'),
    ('C15', 'COMMIT:keep the sum of a SummedField', 'in JIT mode, 2*S[...] with a SummedField S doubled its first Field only'),
    ('C16', 'COMMIT:used more than once in a sum', 'in JIT mode, a sum of kernels that has one kernel more than once failed to compile or repeated its statements'),
    ('C11', 'COMMIT:linear_invdist_land_tracer gives zero', 'in JIT mode, linear_invdist_land_tracer gave the value of the only wet point of a cell also exactly on a land point'),
    ('C12', 'COMMIT:do not shift cells of flat C-grids', 'in JIT mode, velocities on flat C-grids with cells wider than 180 were wrong'),
    ('C11', 'COMMIT:uppermost cell of MOM5', 'in Scipy mode, bgrid_tracer and linear Fields on MOM5 grids used the bottom level in the uppermost cell'),
    ('C13', '740ebfc', 'adding a Field to a SummedField extended that SummedField itself'),
    ('C14', 'COMMIT:also to the Fields in SummedFields', 'Fields that are only part of a SummedField or NestedField got no periodic halo'),
    ('C14', 'COMMIT:can enter the meridional halo', 'particles in the meridional halo of curvilinear grids were out of bounds'),
    ('C14', 'COMMIT:beyond the zonal halo of a flat', 'particles beyond the zonal halo of a flat mesh were extrapolated (also an endless search on curvilinear grids)'),
    ('C14', 'COMMIT:halos of different sizes', 'deferred Fields with a zonal and a meridional halo of different sizes, or a halo as large as the Field, were loaded wrongly'),
    ('C14', 'COMMIT:edges of chunks of a single point', 'in JIT mode, values at a chunk of a single point (as halos give) were read from outside of the chunk'),
    ('C11', 'COMMIT:clockwise', 'points in cells of curvilinear grids whose corners are ordered clockwise were not found (latitudes or longitudes that decrease)'),
    ('C20', 'COMMIT:own fieldtype', 'FieldSet.from_netcdf used the fieldtype of the previous variable for the next ones (unit conversion of U on other fields)'),
    ('C20', 'COMMIT:share grids in FieldSet.from_netcdf', 'FieldSet.from_netcdf shared the grid of the previous variable if only their files and dimensions have the same names'),
    ('C20', 'COMMIT:several timestamps per file', 'given timestamps with several slices per file failed without deferred loading'),
    ('C20', 'COMMIT:convert times', 'FieldSet.from_xarray_dataset converted the times of a Dataset with calendar-less Unit once only'),
    ('C20', 'COMMIT:make Fields from xarray periodic', 'time_periodic was dropped for Fields made from xarray'),
    ('C20', 'COMMIT:latitudes in different orders', 'deferred Fields with ascending and descending latitudes shared one grid and were loaded upside down'),
    ('C09', 'COMMIT:load deferred Fields anew', 'after an error (such as a TimeExtrapolationError) that stopped the loading of deferred Fields, other Fields kept data of other times'),
    ('C11', 'COMMIT:each component of a VectorField', 'in JIT mode, all components of a VectorField were interpolated with the interp_method of the first'),
]
K = []  # dict(property=, status='known', key=, what=)
import subprocess


def commit(c):
    if not c.startswith('COMMIT:'):
        return c
    return subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--fixed-strings', '--grep=' + c[7:], '-1'], text=True).strip()


F = [(p, commit(c), w) for p, c, w in F]
assert all(c for _, c, _ in F)
KF = [dict(property=p, status='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, w.replace('fixed: ', ''))) for p, c, w in F] + K
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w') as f:
    json.dump(KF, f, indent=1)
    f.write('\n')
