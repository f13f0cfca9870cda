#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand; output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop('C01', 'A sampled value is the documented interpolation of the surrounding nodes',
     'For every interpolation method (linear, nearest, the inverse-distance land-aware linear method for tracers, B-grid velocity, vertical velocity and tracer, C-grid tracer) on every structured grid, sampling a field inside its domain returns exactly the documented combination of the nodes that surround the point, and the result is linear in time between the two bracketing snapshots. '
     'Scipy mode and JIT mode compute the same combination from the same nodes.',
     ['inputs', 'configurations'], 'all field values, positions, relative cell coordinates, times, interpolation methods, 2D/3D and single-level grids, both execution modes',
     'Tests sample a few fields, mostly linear in space, for which wrong node weights or swapped nodes often cancel; no test enumerates methods x dimensions x boundary cells x modes.',
     ['parcels/field.py', 'parcels/include/parcels.h'],
     [('Python spatial interpolators', 'parcels/field.py Field.interpolator2D, Field.interpolator3D, Field.spatial_interpolation'),
      ('Python temporal interpolation', 'parcels/field.py Field.temporal_interpolation, Field.eval'),
      ('C spatial interpolators', 'parcels/include/parcels.h spatial_interpolation_*'),
      ('C temporal interpolation', 'parcels/include/parcels.h temporal_interpolation*')])
prop('C02', 'Staggered-grid velocities follow the cell geometry, identically in both modes',
     'On C-grids, the velocity returned for a point is the documented flux-based reconstruction from the face velocities and the corner coordinates of the cell that contains it, on flat and spherical meshes, in z- and s-levels. '
     'Scipy mode and JIT mode use the same faces, corner ordering, shape functions and Jacobians.',
     ['inputs', 'configurations'], 'all corner coordinates, face values, positions in the cell, mesh types, grid types and index conventions',
     'Tests use a handful of nearly rectangular cells; a wrong corner, derivative or Jacobian term vanishes or stays within tolerance on such cells.',
     ['parcels/field.py', 'parcels/tools/interpolation_utils.py', 'parcels/include/parcels.h', 'parcels/include/interpolation_utils.h'],
     [('Python C-grid reconstruction', 'parcels/field.py VectorField.spatial_c_grid_interpolation2D, spatial_c_grid_interpolation3D(_full), jacobian, dist'),
      ('C reconstruction', 'parcels/include/parcels.h spatial_interpolation_UV*_c_grid, temporal_interpolationUV*'),
      ('shape functions and Jacobians', 'parcels/tools/interpolation_utils.py, parcels/include/interpolation_utils.h')])
prop('C03', 'A point is located in the cell that contains it or reported out of the domain',
     'For every grid type and every position, the index search either returns the cell whose corners enclose the point with relative coordinates inside the unit cell, or reports that the point is outside the domain (distinguishing a point above the surface); it never silently returns a neighbouring or clamped cell. '
     'The initial guess influences only the cost of the search, never its result, and both modes classify a point the same way.',
     ['inputs', 'histories'], 'all positions including cell edges and the antimeridian, all initial index guesses left by earlier samples, z/s-levels, rectilinear/curvilinear, flat/spherical',
     'The search is a data-dependent iteration seeded by the previous sample; tests reach a few positions and never exact edges of the last cell, the antimeridian with stale guesses, or time-varying depths.',
     ['parcels/field.py', 'parcels/include/index_search.h'],
     [('Python search', 'parcels/field.py Field.search_indices*, reconnect_bnd_indices'),
      ('C search', 'parcels/include/index_search.h search_indices*, reconnect_bnd_indices')])
prop('C04', 'No field is silently sampled outside its time range',
     'Sampling at a time outside the time axis of a field is reported as a time-extrapolation error unless extrapolation was allowed (then the first or last snapshot is used) or the field is time-periodic (then the time is wrapped into the axis by whole periods). '
     'Inside the axis the bracketing snapshots are always used, whatever snapshot was used before.',
     ['inputs', 'histories', 'configurations'], 'all sampling times, forward and backward, all previous time indices, periodic, extrapolating or strict fields, both modes',
     'Tests sample few times, never at exact snapshot times with stale guesses, negative periods or after the last snapshot of a deferred field.',
     ['parcels/field.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h'],
     [('Python time index', 'parcels/field.py Field.time_index'), ('C time index', 'parcels/include/index_search.h search_time_index'),
      ('constructor checks', 'parcels/field.py Field.__init__, Field.collect_timeslices, parcels/grid.py Grid.check_zonal_periodic')])
prop('C05', 'A sampling failure always reaches the particle as its matching error',
     'Whenever locating or interpolating fails while a kernel runs, the failing evaluation stops the kernel for that particle before the value is used and the particle ends in the state that matches the failure (out of bounds, through surface, time extrapolation, interpolation, or generic error), in both modes. '
     'No intermediate layer drops, overwrites or relabels a failure, and an unrecovered failure surfaces to the user as the matching exception.',
     ['inputs', 'fault_sequences', 'configurations'], 'every call chain from a kernel-level field access down to the searches, for every field kind and failing layer',
     'Tests trigger a failure in a few places; a dropped status in another branch just produces a plausible number.',
     ['parcels/include/parcels.h', 'parcels/include/index_search.h', 'parcels/compilation/codegenerator.py', 'parcels/kernel.py', 'parcels/tools/statuscodes.py'],
     [('status propagation in C', 'parcels/include/parcels.h, index_search.h CHECKSTATUS'),
      ('status checks in generated code', 'parcels/compilation/codegenerator.py KernelGenerator visit_*EvalNode'),
      ('exception-to-state mapping', 'parcels/kernel.py Kernel.execute_python'), ('default error kernels', 'parcels/tools/statuscodes.py')])
prop('C06', 'The Python and C sides agree on every shared code and memory layout',
     'Every numeric code (particle state, error, grid type, interpolation method, index convention, chunk state) has the same meaning on the Python and C sides, is distinct from the others of its kind, and every record passed between them has the same fields in the same order with the same types. '
     'Fields and constants are passed to compiled kernels in the order in which those kernels declare them.',
     ['configurations', 'programs'], 'all codes, all records, all particle classes, all kernels and their field/constant arguments',
     'Tests exercise only the codes and layouts they happen to use, and a layout slip can read a neighbouring member of similar value.',
     ['parcels/grid.py', 'parcels/field.py', 'parcels/particle.py', 'parcels/tools/statuscodes.py', 'parcels/particlesets/collectionsoa.py', 'parcels/compilation/codegenerator.py', 'parcels/kernel.py', 'parcels/include/parcels.h', 'parcels/include/index_search.h'],
     [('ctypes records', 'Field.ctypes_struct, Grid.child_ctypes_struct, ParticleCollectionSOA.cstruct'), ('C records and enums', 'parcels/include/index_search.h, parcels.h'),
      ('argument order', 'LoopGenerator.generate, KernelGenerator.generate, Kernel.execute_jit')])
prop('C07', 'Particle time advances only by completed steps and never past the end time',
     'For every particle, time advances exactly by the particle\'s own signed time step, only when the kernel completed (or deleted the particle); on any other outcome all variables except time step and state are put back to their values before the step. '
     'No step crosses the end time in either time direction, unstarted or finished particles are left alone, and Scipy and JIT mode follow the same rules.',
     ['inputs', 'histories', 'fault_sequences'], 'all kernels, outcomes, time steps (adaptive, zero, negative), release times and end times, both modes',
     'Tests check final positions of regular runs; interrupted steps, adaptive steps near the end time, repeated steps or backward runs are only sampled.',
     ['parcels/kernel.py', 'parcels/compilation/codegenerator.py', 'parcels/particle.py', 'parcels/particlesets/collectionsoa.py'],
     [('Scipy loop', 'parcels/kernel.py Kernel.execute_python'), ('JIT loop', 'parcels/compilation/codegenerator.py LoopGenerator.generate'),
      ('next step size', 'update_next_dt in particle classes and generated code')])
prop('C08', 'Every interrupted particle is recovered, repeated, deleted or reported',
     'After each pass of a kernel, every particle in an error state is handed to the recovery kernel registered for exactly its error (user-supplied before default), every repeating particle is re-run, every deleted particle is removed and no other particle is, until none is left in such a state. '
     'Deletion reaches the output file with the particle\'s final values before the particle disappears.',
     ['fault_sequences', 'histories'], 'all sequences of errors, deletions, repeats and recoveries over all particles and passes',
     'Tests use one error kind at a time with small sets; cascades of errors raised during recovery passes are not enumerated.',
     ['parcels/kernel.py', 'parcels/tools/statuscodes.py', 'parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/collectionsoa.py', 'parcels/particle.py'],
     [('recovery loop', 'parcels/kernel.py Kernel.execute, remove_deleted*'), ('default recovery map', 'parcels/tools/statuscodes.py recovery_map'),
      ('error selection', 'ParticleSetSOA.error_particles, num_error_particles, data_indices')])
prop('C09', 'A kernel means the same compiled to C as it does in Python',
     'Every kernel that the code generator accepts has the same meaning in JIT mode as in Scipy mode: operators, precedence, control flow, tuple assignment, constants, math functions, random functions, particle variables and field accesses translate to their C equivalent; anything it cannot translate is rejected. '
     'Combining kernels runs them in the given order with all their variables and includes.',
     ['programs'], 'all kernels built from the supported Python subset, all combinations of kernels',
     'Tests translate a few dozen expressions; the space of programs and nestings is unbounded.',
     ['parcels/compilation/codegenerator.py', 'parcels/kernel.py'],
     [('node lowering', 'parcels/compilation/codegenerator.py IntrinsicTransformer, TupleSplitter, KernelGenerator'), ('kernel merging', 'parcels/kernel.py Kernel.merge, __add__, __radd__')])
prop('C10', 'Unit conversion is applied exactly once, with the same factors everywhere',
     'Every sampled velocity or diffusivity is converted exactly once from source to target units with the factor of its component and the position of the particle, in Scipy mode, in JIT mode and for vector and combined fields; requesting no conversion applies none. '
     'For each converter, converting to the target and back is the identity and the generated C factor equals the Python factor.',
     ['inputs', 'configurations'], 'all values and positions, all fields, meshes and access paths (direct, kernel, vector, summed, nested)',
     'Tests check a few fields at a few latitudes; a missing or doubled conversion on another access path or an inverted inverse goes unseen.',
     ['parcels/tools/converters.py', 'parcels/field.py', 'parcels/fieldset.py', 'parcels/compilation/codegenerator.py'],
     [('converters', 'parcels/tools/converters.py UnitConverter and subclasses'), ('application in Python', 'Field.eval, VectorField.eval'), ('application in generated code', 'Field.ccode_convert, KernelGenerator visit_FieldEvalNode/visit_VectorFieldEvalNode')])
prop('C11', 'Particle data stays aligned under every addition, removal and lookup',
     'After any sequence of additions, removals and merges, every stored variable holds exactly one value per particle, in the same particle order, with the values of the particles that were kept unchanged; identifiers stay unique. '
     'Lookups, iteration and per-particle reads or writes by index, identifier or subset address exactly the particle asked for.',
     ['histories', 'inputs'], 'all sequences of structural operations and accesses over all variables and particle classes',
     'Tests apply one or two operations to small sets; misalignment needs particular sequences.',
     ['parcels/particlesets/collectionsoa.py', 'parcels/particlesets/collections.py', 'parcels/particlesets/iterators.py', 'parcels/particlesets/particlesetsoa.py', 'parcels/particle.py'],
     [('structure of arrays', 'parcels/particlesets/collectionsoa.py ParticleCollectionSOA'), ('iterators and accessors', 'parcels/particlesets/collectionsoa.py, iterators.py'), ('identifiers', 'parcels/particle.py lastID/setLastID')])
prop('C12', 'A particle set holds exactly the particles that were asked for',
     'Every way of creating or extending a particle set (from lists, a line, a field density, a stored particle file, repeated release) yields one particle per requested position with the requested position, depth, time, identifiers and variable values, after the documented defaults and time conversion; inconsistent input is rejected. '
     'Queries such as density, size and subset selection reflect exactly those particles.',
     ['inputs', 'configurations'], 'all argument combinations of the constructors and queries',
     'Each constructor has many optional arguments that interact; tests cover single combinations.',
     ['parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/baseparticleset.py', 'parcels/particlesets/collectionsoa.py', 'parcels/particle.py'],
     [('constructors', 'ParticleSetSOA.__init__, from_list, from_line, from_field, from_particlefile; BaseParticleSet'), ('initial values', 'ParticleCollectionSOA.__init__, Variable')])
prop('C13', 'Execution stops at every due event and handles it exactly once',
     'For every combination of run time, time step, output interval, repeat interval and movie interval, in either time direction, execution advances from event to event without overshooting any, performs each due output, release, plot and callback exactly once per due time, and ends at the requested end time. '
     'Conflicting or invalid run arguments are rejected before any particle moves.',
     ['configurations', 'histories'], 'all argument combinations, directions, interval ratios and release times',
     'Tests use a few commensurate intervals; the interplay of intervals and directions is combinatorial.',
     ['parcels/particlesets/baseparticleset.py', 'parcels/fieldset.py'],
     [('event loop', 'parcels/particlesets/baseparticleset.py BaseParticleSet.execute'), ('field time stepping', 'parcels/fieldset.py FieldSet.computeTimeChunk')])
prop('C14', 'Particle output is complete, faithful and recoverable',
     'Every write stores, for each particle due at that time, all variables marked for output with their current values, values marked once are stored exactly once per particle, and no stored piece is discarded before it has been exported. '
     'Exporting, also later from the stored pieces alone, gathers every piece into the row of its particle in time order, and a set restarted from a file gets back the stored values.',
     ['histories', 'inputs', 'crash_points'], 'all sequences of writes, deletions, releases, exports and re-exports',
     'Tests look at the final file of regular runs; deleted-only writes, repeated exports, interrupted runs and once-variables of late particles are barely sampled.',
     ['parcels/particlefile.py', 'parcels/particlesets/collectionsoa.py', 'parcels/scripts/convert_npydir_to_netcdf.py', 'parcels/particlesets/particlesetsoa.py'],
     [('writing', 'parcels/particlefile.py ParticleFile.write, dump_dict_to_npy, dump_psetinfo_to_npy'), ('selection of rows', 'ParticleCollectionSOA.toDictionary'), ('export', 'ParticleFile.export, read_from_npy, scripts/convert_npydir_to_netcdf.py')])
prop('C15', 'Deferred and chunked loading is invisible to sampling',
     'Whether data is loaded at once, lazily in time or in spatial chunks, a sample sees the same processed values (scaled, masked, clipped, halo-extended) for the same file time: snapshots needed for the current step are always loaded before use, in both time directions, and memory of a chunk that is not loaded is never read. '
     'Chunk bookkeeping on both sides follows one protocol: requested, loaded, touched, deprecated, dropped.',
     ['histories', 'configurations', 'inputs'], 'all orders of chunk requests, time windows, directions, chunk sizes and file layouts',
     'Tests compare a few configurations; which chunks are requested, evicted or reloaded when is a history that small data sets do not reach.',
     ['parcels/field.py', 'parcels/fieldset.py', 'parcels/grid.py', 'parcels/fieldfilebuffer.py', 'parcels/kernel.py', 'parcels/include/parcels.h'],
     [('time windows', 'Grid.computeTimeChunk, Field.computeTimeChunk, FieldSet.computeTimeChunk'), ('chunk protocol', 'Field.chunk_setup/chunk_data, Kernel.execute/execute_jit, parcels.h getCell2D/getCell3D'), ('file buffers', 'parcels/fieldfilebuffer.py')])
prop('C16', 'Grids describe their axes consistently, also with periodic halos',
     'Every grid reports its dimensions, axis ranges, time origin and type consistently with the arrays it was given, and invalid axes are rejected. '
     'Adding a periodic halo copies the opposite edge on each side by the same number of cells in coordinates, level depths and data alike, so that sampling in the halo equals sampling one period away.',
     ['inputs', 'configurations'], 'all axis arrays, halo sizes, zonal and meridional, all grid types, deferred and loaded fields',
     'Tests use one halo size on one grid; a slip in the other edge, axis or grid type is not sampled.',
     ['parcels/grid.py', 'parcels/gridset.py', 'parcels/field.py', 'parcels/fieldset.py'],
     [('grids', 'parcels/grid.py'), ('halo of data', 'Field.add_periodic_halo'), ('halo of a field set', 'FieldSet.add_periodic_halo'), ('grid set', 'parcels/gridset.py')])
prop('C17', 'Built-in kernels implement their published numerical schemes',
     'The built-in advection kernels perform the Runge-Kutta, Runge-Kutta-Fehlberg, Euler and analytical schemes with their published coefficients, stage times and stage positions; the diffusion kernels implement the Euler-Maruyama and Milstein schemes; and the seawater kernels evaluate the published equations of state. '
     'All stages sample from the positions of the current step and the position is changed once.',
     ['inputs'], 'all positions, velocities, time steps and tracer values',
     'Trajectory tests have tolerances that hide a lost order of accuracy or a slightly wrong coefficient in most kernels.',
     ['parcels/kernels/advection.py', 'parcels/kernels/advectiondiffusion.py', 'parcels/kernels/EOSseawaterproperties.py', 'parcels/kernels/TEOSseawaterdensity.py'],
     [('advection', 'parcels/kernels/advection.py'), ('diffusion', 'parcels/kernels/advectiondiffusion.py'), ('seawater', 'parcels/kernels/EOSseawaterproperties.py, TEOSseawaterdensity.py')])
prop('C18', 'Both modes draw from the same seeded random generator',
     'Each random function offered to kernels has the same parameters and computes the same transformation of the same C generator whether it is called from Python or from a compiled kernel, and seeding fixes the stream. '
     'Results stay in the documented range of each distribution.',
     ['inputs', 'programs'], 'all seeds, parameters and interleavings of random calls',
     'Tests check means of a few draws per function.',
     ['parcels/rng.py', 'parcels/include/random.h', 'parcels/compilation/codegenerator.py'],
     [('Python wrappers', 'parcels/rng.py'), ('C functions', 'parcels/include/random.h'), ('kernel access', 'codegenerator.py RandomNode')])
prop('C19', 'Constructing fields and field sets honours every option',
     'Every option given when building a field or field set (file names, variables, dimensions, indices, mesh, time stamps, extrapolation, periodicity, interpolation method, index convention, chunking, transposition, scaling) reaches every field it applies to, for every way of building; unsupported combinations are rejected, and a completed set has consistent velocity components, units and time origins. '
     'The data used is exactly the selected part of the input in the documented axis order.',
     ['configurations', 'inputs'], 'all constructors and combinations of options, for each field in the set',
     'There are more than ten constructors with up to twenty options each; tests cover a few combinations.',
     ['parcels/fieldset.py', 'parcels/field.py', 'parcels/gridset.py', 'parcels/fieldfilebuffer.py'],
     [('field set constructors', 'parcels/fieldset.py FieldSet.from_*'), ('field constructors', 'parcels/field.py Field.__init__, from_netcdf, from_xarray'), ('completion', 'FieldSet.check_complete, add_field')])
prop('C20', 'Summed and nested fields combine their members as documented',
     'Sampling a sum of fields returns the sum over all members, sampling a nested field returns the value of the first member whose domain contains the point and fails only when no member does; both hold for scalar and vector fields, in both modes, wherever in a kernel the access stands. '
     'Vector fields return their components in order and dimension.',
     ['inputs', 'programs', 'configurations'], 'all member lists, positions and kernels',
     'Tests use two members and one access pattern per mode.',
     ['parcels/field.py', 'parcels/compilation/codegenerator.py'],
     [('Python', 'parcels/field.py SummedField, NestedField, VectorField'), ('generated code', 'codegenerator.py visit_Summed*/visit_Nested*/VectorField*')])
prop('C21', 'Absolute and relative times convert consistently',
     'Converting an absolute time to seconds since the origin and back yields the same time for every supported calendar, and times with the same origin compare and shift consistently. '
     'Everywhere a user may give a date, duration or number, it is converted with the origin of the field set before it is used.',
     ['inputs', 'configurations'], 'all calendars, dates, durations and places that accept times',
     'Tests use a few dates of one or two calendars.',
     ['parcels/tools/converters.py', 'parcels/field.py', 'parcels/particlesets/baseparticleset.py', 'parcels/gridset.py'],
     [('time converter', 'parcels/tools/converters.py TimeConverter, convert_xarray_time_units'), ('users', 'Field.collect_timeslices, FieldSet.add_field, BaseParticleSet.execute')])
prop('C22', 'A particle set runs exactly the kernel it was given',
     'Each compiled kernel is built from its own source into its own library, the library that is loaded is the one just built, compiler failures are reported, and clean-up removes only files of that kernel after its library was released. '
     'A kernel is recompiled whenever the set\'s kernel changes and never shared between kernels that differ.',
     ['histories', 'configurations'], 'all sequences of kernel creation, execution, replacement and disposal, all compilers',
     'Tests create kernels one at a time in fresh processes.',
     ['parcels/kernel.py', 'parcels/compilation/codecompiler.py', 'parcels/particlesets/baseparticleset.py', 'parcels/tools/global_statics.py'],
     [('library life cycle', 'parcels/kernel.py Kernel.compile/load_lib/remove_lib/_cache_key'), ('compilers', 'parcels/compilation/codecompiler.py')])
prop('C23', 'Trajectories converge to the exact solution with the order of the scheme',
     'With smooth fields, the computed trajectory approaches the exact one at the nominal order as the time step and grid spacing shrink, within floating-point accuracy.',
     ['inputs'], 'all smooth fields and step sizes', 'Tests compare a few analytical flows within tolerances.',
     ['parcels/kernels/advection.py', 'parcels/field.py'], [('schemes', 'parcels/kernels/advection.py')])
prop('C24', 'Memory use stays bounded for long deferred simulations',
     'The resident memory of a simulation with deferred, chunked loading stays bounded independently of its duration.',
     ['histories'], 'all run lengths and chunk sizes', 'One test measures one configuration.',
     ['parcels/field.py', 'parcels/fieldset.py', 'parcels/fieldfilebuffer.py'], [('eviction', 'Field.chunk_data, FieldSet.computeTimeChunk')])
prop('C25', 'A parallel run gives the trajectories of the serial run',
     'Distributing particles over processes changes neither any trajectory nor the merged output.',
     ['schedules', 'configurations'], 'all partitions and process counts', 'Tests run in one process.',
     ['parcels/particlesets/collectionsoa.py', 'parcels/particlefile.py'], [('partitioning', 'ParticleCollectionSOA.__init__'), ('merged export', 'ParticleFile.export')])
prop('C26', 'Random draws follow their named distributions',
     'Samples from each random function are distributed as its name and parameters say.',
     ['inputs'], 'all parameters and seeds', 'Tests compare a few moments.',
     ['parcels/include/random.h', 'parcels/rng.py'], [('generators', 'parcels/include/random.h')])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
