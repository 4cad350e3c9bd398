"""The properties: single source for properties.jsonl and MANIFEST.json."""
NOTE = ('The specification is checked exhaustively by TLC within the stated constants; the implementation is bound to it by '
        'replaying TLC-generated behaviours (seeded) through the public API in Scipy and JIT mode and comparing every '
        'observation. Trusts TLC, the driver and its projection; bounded by the constants and the number of behaviours.')
PS = 'parcels/particlesets/baseparticleset.py'
SOA = 'parcels/particlesets/particlesetsoa.py'
COL = 'parcels/particlesets/collectionsoa.py'
GEN = 'parcels/compilation/codegenerator.py'
EXE = 'TLA+ state machine of execute (Execute.tla), TLC exhaustive + replay of TLC behaviours in the code'

TW = 'TLA+ state machine of fields in time, deferred loading and sampling (TimeWindow.tla), TLC exhaustive + replay of TLC behaviours in the code'

SM = 'TLA+ specification of sampling on structured grids (Sampling.tla), TLC exhaustive + replay of TLC behaviours in the code'
CO = 'TLA+ state machine of particle sets as collections (Collection.tla), TLC exhaustive for small histories + replay of TLC-generated histories in the code'
CB = 'TLA+ specification of combined fields (Combine.tla), TLC exhaustive for few components + replay of TLC behaviours in the code'
HA = 'TLA+ specification of periodic halos (Halo.tla), TLC exhaustive over grids and widths + replay of TLC behaviours in the code'
LD = 'TLA+ specification of what a loaded dataset holds (Load.tla), TLC exhaustive for small datasets + replay of TLC-generated datasets in the code'
KL = 'TLA+ semantics of the kernel language (KernelLang.tla), TLC exhaustive for small programs + replay of TLC-generated programs in the code'

PROPS = [
    dict(id='C01', title='Time stepping reaches every interruption and the end time exactly',
         statement='In every execute call, each particle that is due is advanced by an unbroken chain of kernel invocations that '
         'starts at its own release or current time, goes in the direction of dt, never crosses an output, callback, release or end time, and ends exactly at the end time; '
         'particles with a later release time are not touched before it, and with dt or runtime zero every kernel runs exactly once per particle. '
         'Callbacks run at every multiple of their interval and see every due particle at exactly that time, in Scipy and in JIT mode alike.',
         over=['configurations', 'inputs', 'histories'],
         for_all='all release times (given, delayed or omitted), dt of either sign, run lengths, output and callback intervals (also when they are no multiples of dt), '
         'changes of dt by kernels (repeat, next dt) and sequences of execute calls',
         tests='the tests sample a few intervals that divide each other and mostly one execute call; they look at end positions, not at the chain of invocations',
         files=[PS, 'parcels/kernel.py', GEN], mech=[('next interruption time of the outer loop', PS + ' execute'),
               ('per-particle inner loop', 'parcels/kernel.py execute_python; ' + GEN + ' LoopGenerator')],
         observe=['ParticleSet.execute', 'kernel invocations', 'postIterationCallbacks'], technique=EXE, note=NOTE),
    dict(id='C02', title='Failed timesteps leave no trace; recovery and deletion are exact',
         statement='A kernel invocation that ends in an error or asks to be repeated leaves all particle variables (except dt) as they were before it, does not affect any other particle, and is tried again at the same time; '
         'the recovery kernel of that error - or the default one, which raises - is called exactly once per failure with the restored particle. '
         'A particle that asks for deletion, in a kernel or in a recovery kernel, is removed, and only it, and no kernel is executed for it afterwards.',
         over=['fault_sequences', 'histories', 'inputs'],
         for_all='all sequences of outcomes (success, error of each kind, repeat, dt changed, delete) per particle, all assignments of recovery kernels that change, delete or raise, '
         'several particles failing in the same pass, in Scipy (returned and raised) and JIT mode',
         tests='tests have single failures with one recovery kernel and check the final position; combinations and the rolled-back variables are not looked at',
         files=['parcels/kernel.py', GEN, 'parcels/tools/statuscodes.py', COL],
         mech=[('backup and restore of particle variables', 'parcels/kernel.py execute_python; ' + GEN + ' LoopGenerator'),
               ('recovery loop', 'parcels/kernel.py Kernel.execute')],
         observe=['kernel invocations', 'recovery kernels', 'ParticleSet after execute'], technique=EXE, note=NOTE),
    dict(id='C03', title='Repeated release happens at every multiple of repeatdt, unchanged',
         statement='A particle set with repeatdt releases one full copy of its initial particles - original positions, depth and variable values, new ids - at the release time plus every multiple of repeatdt that is reached, '
         'in the direction of the run, none missed and none doubled, also when the run is split over several execute calls or when particles move, change or are deleted. '
         'A call with dt or runtime zero releases nothing.',
         over=['configurations', 'histories'],
         for_all='all repeatdt, dt, output and callback intervals, run lengths, release times (given or omitted), histories of movement and deletion, sequences of execute calls',
         tests='the tests use few intervals, and kernels that hardly change the particles before the next release',
         files=[PS, SOA], mech=[('next release time, construction of the new particles', PS + ' execute'), ('stored initial values', SOA + ' __init__')],
         observe=['ParticleSet after execute', 'kernel invocations of the released particles', 'output file'], technique=EXE, note=NOTE),
    dict(id='C04', title='The output file has exactly the due observations of every particle',
         statement='The output file contains, for each particle id, one row per output time at which the particle is present (at most half a timestep away), with its time and variables at that moment, plus a last row when it is deleted, in the order of writing and nothing else; '
         'only deleted particles with write_ondelete. Variables that are written once have the value of exactly that particle.',
         over=['configurations', 'histories'],
         for_all='all output intervals against dt, run length and release times, repeated releases, deletions at any moment (by kernels or recovery kernels), several execute calls (forward and backward) to the same file',
         tests='tests use intervals that divide each other and compare shapes or a few values',
         files=['parcels/particlefile.py', COL, PS], mech=[('selection of the particles to write', COL + ' toDictionary'),
               ('conversion to NetCDF', 'parcels/particlefile.py export, read_from_npy'), ('output schedule', PS + ' execute')],
         observe=['NetCDF output file'], technique=EXE, note=NOTE),
    dict(id='C07', title='A particle set is a collection of particles with unique identities',
         statement='Whatever sequence of creating, adding, removing (by index, id, boolean, marking for deletion), looking up, selecting, assigning and executing is applied to particle sets: every set has exactly the particles the sequence gives it, each with its own id and values; ids are never given twice; '
         'iteration in either direction, indexing, subsets, lookup by id and the arrays of the set show the same particles; and no operation changes a particle or a set that it does not name.',
         over=['histories', 'inputs'],
         for_all='all sequences of operations on several sets of any size, in Scipy and JIT mode, with ids in any order',
         tests='tests apply one or two operations to fresh sets of ordered ids; aliasing, unsorted ids and counts after mixed operations are not sampled',
         files=['parcels/particlesets/collectionsoa.py', 'parcels/particlesets/collections.py', 'parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/baseparticleset.py', 'parcels/particlesets/iterators.py', 'parcels/particle.py', 'parcels/kernel.py'],
         mech=[('arrays of the collection', 'parcels/particlesets/collectionsoa.py ParticleCollectionSOA'), ('set operations', 'parcels/particlesets/particlesetsoa.py ParticleSetSOA')],
         observe=['particles and their variables after every operation'], technique=CO, note=NOTE),
    dict(id='C08', title='A field sampled at any time has the linearly interpolated, periodic or extrapolated value',
         statement='Sampling a field at any time gives the value interpolated linearly between the two surrounding time slices, exactly the slice at its own time; outside the series it gives the first or last slice if time extrapolation is allowed and a time extrapolation error (never a value) otherwise. '
         'With time_periodic the series repeats exactly with that period in both directions, closing from its last to its first slice when the period is longer than the series. Fields in one FieldSet do not influence each other, in Scipy and JIT mode alike.',
         over=['inputs', 'configurations'],
         for_all='all time axes (also not equidistant, starting before or after the time origin), periods, extrapolation settings, sample times and orders of sampling, one or several fields',
         tests='tests sample few times within the first period of mostly equidistant series and one field at a time',
         files=['parcels/field.py', 'parcels/grid.py', 'parcels/gridset.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h', 'parcels/fieldset.py'],
         mech=[('time index', 'parcels/field.py Field.time_index; parcels/include/index_search.h search_time_index'), ('closing slice', 'parcels/field.py Field.__init__')],
         observe=['field samples in kernels', 'raised errors'], technique=TW, note=NOTE),
    dict(id='C09', title='Deferred loading of time slices gives the same samples as loading everything',
         statement='With deferred loading, every sample a kernel takes at a time within the current timestep equals the one taken with all data in memory, and the same errors are raised: whatever the time slices, their distribution over files, the direction of the run, periodicity, '
         'the number of fields with other time axes, and what was run before with the same FieldSet. Execution is interrupted at field times so that no timestep spans them.',
         over=['configurations', 'histories'],
         for_all='all time axes and numbers of slices per file, forward and backward runs in any sequence, start times in or between slices, periodic and extrapolated series, mixtures of deferred and fully loaded fields',
         tests='tests have few deferred configurations (equidistant, one axis, mostly forward and from the first slice)',
         files=['parcels/grid.py', 'parcels/field.py', 'parcels/fieldset.py', 'parcels/fieldfilebuffer.py', 'parcels/gridset.py', 'parcels/include/index_search.h'],
         mech=[('choice of the loaded window', 'parcels/grid.py Grid.computeTimeChunk'), ('loading', 'parcels/fieldset.py FieldSet.computeTimeChunk; parcels/field.py Field.computeTimeChunk')],
         observe=['field samples in kernels', 'timesteps of the particles', 'raised errors'], technique=TW, note=NOTE),
    dict(id='C10', title='Chunked loading of field data is invisible',
         statement='Splitting field data into chunks that are loaded when a particle needs them (chunksize given, automatic or off, also different for each field) changes no sample, timestep or error: particles may start in, move over and share chunks in any way while the time slices change.',
         over=['configurations', 'histories'],
         for_all='all chunk sizes in both dimensions, mixtures over the fields of a FieldSet, particle paths over the chunk borders, with deferred or full loading, forward and backward in time',
         tests='tests compare a few end positions with regular chunk sizes',
         files=['parcels/field.py', 'parcels/grid.py', 'parcels/fieldset.py', 'parcels/kernel.py', 'parcels/fieldfilebuffer.py', 'parcels/include/parcels.h', 'parcels/gridset.py'],
         mech=[('state of the chunks', 'parcels/grid.py load_chunk; parcels/kernel.py execute; parcels/field.py chunk_setup, chunk_data'), ('access in JIT', 'parcels/include/parcels.h getCell2D, getCell3D')],
         observe=['field samples in kernels'], technique=TW, note=NOTE),
    dict(id='C11', title='Sampling a field gives the value its interpolation method prescribes, or the right error',
         statement='The value sampled at a place in a grid (rectilinear or curvilinear, without depth, with increasing, decreasing or terrain-following depth) is the one of the interpolation method - linear, nearest, inverse distance near land, also with the vertical conventions of MOM5 and POP - '
         'of the surrounding grid points, continuous over cells and exact on grid points. It depends on the place and time only, not on where the particle was before, which other fields, grids or particles are sampled, and is the same in Scipy, JIT and by direct access. '
         'Outside of the grid there is always an out-of-bounds (above the uppermost level: through-surface) error, never a value.',
         over=['inputs', 'configurations', 'histories'],
         for_all='all grids (cell sizes, orientations, depth levels), places (inside cells, on edges and on grid points, outside in every direction), values, sample times, and sequences of places',
         tests='tests compare smooth analytical fields on regular grids within generous tolerances, rarely on edges and never after far jumps',
         files=['parcels/field.py', 'parcels/grid.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h'],
         mech=[('index search', 'parcels/field.py Field.search_indices_*; parcels/include/index_search.h'), ('interpolation', 'parcels/field.py interpolator2D/3D; parcels/include/parcels.h spatial_interpolation_*')],
         observe=['field samples in kernels', 'field samples by direct access', 'raised errors'], technique=SM, note=NOTE),
    dict(id='C12', title='Velocities and tracers on staggered grids follow the grid conventions',
         statement='On C-grids (NEMO and MITgcm indexing) the velocity sampled at any place of a cell is the one whose flow through each face is the value given there, interpolated linearly between opposite faces, in the directions of the (rotated, sheared or stretched) cell; '
         'on B-grids (default, POP and MOM5 indexing) horizontal velocity is linear in the horizontal and constant over a layer, vertical velocity linear in the vertical and constant in a cell, and zero at the closed end of the column. Tracers have the value of their cell. In Scipy, JIT and by direct access alike.',
         over=['inputs', 'configurations'],
         for_all='all cells (orientation, shape, size), places in them, depth levels of either direction, values, sample times, and sequences of places',
         tests='tests use uniform flow or few rotated grids; gradients within cells and the layers at the ends are hardly looked at',
         files=['parcels/field.py', 'parcels/grid.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h', 'parcels/include/interpolation_utils.h'],
         mech=[('C-grid velocity', 'parcels/field.py VectorField.spatial_c_grid_interpolation2D; parcels/include/parcels.h spatial_interpolation_UV_c_grid'), ('B-grid', 'parcels/field.py interpolator3D; parcels/include/parcels.h temporal_interpolation_structured_grid')],
         observe=['velocities and samples in kernels', 'samples by direct access'], technique=SM, note=NOTE),
    dict(id='C13', title='Nested and summed fields combine their components as documented',
         statement='A NestedField has at every place and time the value of its first component that is not out of bounds there, and the error of the last one if all are; a SummedField has the sum of the values of its components, and the error of the first one that fails. '
         'This holds for scalars and for velocities (each component of which may have parts on other grids, units and time axes), for sums built up in any grouping or order and shared by other sums, for several combined fields in one expression, in Scipy, JIT and by direct access.',
         over=['inputs', 'configurations'],
         for_all='all numbers, orders and groupings of components, boxes and time ranges they cover, units, and places and times in, on the border of and outside of any of them',
         tests='tests nest or add two or three fields of the same extent or one inside of the other, and look at one particle',
         files=['parcels/field.py', 'parcels/fieldset.py', GEN, 'parcels/include/parcels.h'],
         mech=[('evaluation in Scipy', 'parcels/field.py NestedField.__getitem__, SummedField.__getitem__'), ('construction of sums', 'parcels/field.py Field.__add__, VectorField.__add__, SummedField.__add__; parcels/fieldset.py add_field, check_complete'),
               ('code generation', GEN + ' visit_SummedFieldEvalNode, visit_NestedFieldEvalNode')],
         observe=['field samples in kernels', 'field samples by direct access', 'raised errors'], technique=CB, note=NOTE),
    dict(id='C14', title='Periodic halos continue all fields periodically',
         statement='With a periodic halo (zonal, meridional or both, added at once or in turn, with any widths), every field of the FieldSet has at a place in the halo the value of the place one period further: the period is the extent plus the first cell, so cells at the seam are interpolated between both ends. '
         'Values inside do not change; beyond the halo there is an error. This does not depend on the grid, on how data is loaded (in memory, from file, deferred, in chunks), on time, or on fields sharing grids or being part of combined fields.',
         over=['inputs', 'configurations'],
         for_all='all grids, halo widths in both directions and orders of adding them, loading modes, times, and places in, on the border of and beyond the halo',
         tests='tests add halos of equal width to one regular grid in memory and look at few places',
         files=['parcels/field.py', 'parcels/grid.py', 'parcels/fieldset.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h'],
         mech=[('extension of data', 'parcels/field.py Field.add_periodic_halo, Field.reshape'), ('extension of grids', 'parcels/grid.py add_periodic_halo'), ('search', 'parcels/include/index_search.h; parcels/field.py search_indices_*')],
         observe=['field samples in kernels', 'raised errors'], technique=HA, note=NOTE),
    dict(id='C15', title='A kernel means the same in JIT mode as in Python',
         statement='Every kernel written in the supported language - arithmetic, comparisons and logical operators with any grouping, if/elif/else, while with break, local variables, (augmented, multiple and tuple) assignment, particle variables of all types, fieldset constants, field and vector field evaluation anywhere in expressions and tests - '
         'computes in JIT mode what Python computes, for every particle and step.',
         over=['inputs', 'configurations'],
         for_all='all programs of the language up to the generated size and nesting, values of the variables, number of steps and particles',
         tests='tests have one small kernel per language feature; combinations (grouping, nesting, fields in tests, integer types) are not enumerated',
         files=[GEN, 'parcels/kernel.py', 'parcels/include/parcels.h'],
         mech=[('code generation', GEN + ' IntrinsicTransformer, KernelGenerator, LoopGenerator')],
         observe=['particle variables after every time step'], technique=KL, note=NOTE),
    dict(id='C16', title='Concatenated kernels behave as one kernel with their statements in order',
         statement='Kernels that are added (in any grouping, as functions or Kernels, also the same one several times) are executed one after the other in every time step as if they were written as one: '
         'in the order of the sum, each with its own effect, seeing the particle as the previous one left it, in Scipy and in JIT mode. Kernels that are part of a sum are not changed and may be used elsewhere.',
         over=['inputs', 'configurations'],
         for_all='all ways to cut programs of the language into kernels and to group and repeat them',
         tests='tests concatenate two or three tiny kernels in one order',
         files=['parcels/kernel.py', GEN, 'parcels/particlesets/particlesetsoa.py'],
         mech=[('merging', 'parcels/kernel.py Kernel.merge, __add__, __radd__')],
         observe=['particle variables after every time step'], technique=KL, note=NOTE),
    dict(id='C20', title='A FieldSet holds the values of its dataset, whatever its layout and the way it is loaded',
         statement='A FieldSet made from files (with or without deferred loading, chunked or not), from one or several xarray Datasets, or from arrays, has for every Field, at every grid point and time of the dataset, the value the dataset has there under its own coordinate labels: '
         'whatever the order and directions of dimensions, latitudes and depths, missing values, selected indices, number of files, time slices per file and calendars, timestamps given instead of read, time being periodic, and whichever Fields are made together (with the same or other grids, time axes, extents, mesh or vector components). '
         'Fields share a grid only if the grids are the same.',
         over=['inputs', 'configurations'],
         for_all='all datasets of several variables with equal or different coordinates, orders of dimensions, directions, splits into files, forms of times, indices, and routes of loading',
         tests='tests load a few given datasets by one route each, and mostly look at velocities of one grid in memory',
         files=['parcels/fieldset.py', 'parcels/field.py', 'parcels/fieldfilebuffer.py', 'parcels/grid.py', 'parcels/gridset.py'],
         mech=[('reading coordinates and data', 'parcels/fieldfilebuffer.py'), ('making and sharing of grids', 'parcels/fieldset.py from_netcdf, from_xarray_dataset, from_data; parcels/field.py Field.from_netcdf, Field.from_xarray; parcels/gridset.py add_grid'),
               ('transposition and flipping', 'parcels/field.py Field.reshape, Field.from_netcdf; parcels/grid.py')],
         observe=['field samples in kernels', 'raised errors'], technique=LD, note=NOTE),
]
