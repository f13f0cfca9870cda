"""Which functions anchor which property (regular expressions over 'path:qualname', C functions as 'c:name')."""
import re

FIELD = r'field\.py:(Field|VectorField|SummedField|NestedField|DeferredArray)\.'

ANCHORS = {
    'C01': [r'field\.py:_isParticle', r'field\.py:Field\.(interpolator2D|interpolator3D|spatial_interpolation|temporal_interpolate_fullfield|eval|__getitem__|ccode_eval|time_index|ctypes_struct|reshape|__init__|rescale_and_set_minmax|set_scaling_factor|set_depth_from_field)',
            r'field\.py:VectorField\.(eval|__getitem__|ccode_eval)',
            r'tools/interpolation_utils\.py:(phi1D_lin|phi1D_quad|phi2D_lin|phi3D_lin|interpolate)',
            r'c:spatial_interpolation_(?!UV).*', r'c:temporal_interpolation(UV|UVW)?', r'c:temporal_interpolation_structured_grid', r'c:(getCell|getBlock)[23]D', r'c:is_.*',
            r'c:search_time_index', r'compilation/codegenerator\.py:(FieldEval.*|FieldNode.*|KernelGenerator\.(visit_FieldEvalNode|visit_VectorFieldEvalNode|_check_FieldSamplingArguments))'],
    'C02': [r'field\.py:VectorField\..*', r'tools/interpolation_utils\.py:.*', r'c:(dist|dot_prod)', r'c:spatial_interpolation_UV.*', r'c:temporal_interpolationUVW?(_c_grid)?',
            r'c:(phi|dphi|dxdxsi|jacobian).*', r'c:(getCell|getBlock)[23]D', r'field\.py:Field\.(interpolator2D|interpolator3D)',
            r'c:is_.*'],
    'C03': [r'field\.py:Field\.(search_indices.*|reconnect_bnd_indices|__init__)', r'c:search_indices.*', r'c:reconnect_bnd_indices', r'grid\.py:Grid\.(__init__|check_zonal_periodic|create_grid)', r'grid\.py:(Curvilinear|Rectilinear)\w*Grid\.__init__',
            r'particlesets/particlesetsoa\.py:ParticleSetSOA\.populate_indices', r'field\.py:VectorField\.spatial_c_grid.*', r'field\.py:Field\.spatial_interpolation'],
    'C04': [r'field\.py:Field\.(time_index|eval|__init__|temporal_interpolate_fullfield|collect_timeslices|computeTimeChunk|advancetime|from_netcdf|from_xarray|ctypes_struct)', r'field\.py:VectorField\.(eval|spatial_c_grid.*)',
            r'c:search_time_index', r'c:temporal_interpolation.*', r'fieldset\.py:FieldSet\.(computeTimeChunk|advancetime|check_complete)', r'grid\.py:Grid\.(advancetime|computeTimeChunk|__init__|ctypes_struct|child_ctypes_struct)', r'field\.py:(SummedField|NestedField)\..*'],
    'C05': [r'c:(search_|reconnect|spatial_|temporal_|getCell|getBlock).*', r'compilation/codegenerator\.py:(KernelGenerator|LoopGenerator|StatusCodeNode)\..*', r'kernel\.py:Kernel\.(execute.*|remove_deleted.*)',
            r'tools/statuscodes\.py:.*', r'field\.py:Field\.(search_indices.*|interpolator.*|spatial_interpolation|eval|time_index|__getitem__|get_block.*)', r'field\.py:NestedField\..*', r'field\.py:VectorField\..*',
            r'particlesets/(particlesetsoa|baseparticleset)\.py:\w+\.(error_particles|num_error_particles|execute)', r'particle\.py:ScipyParticle\.(delete|set_state)', r'particlesets/(collectionsoa|iterators)\.py:\w+\.(set_state|delete)'],
    'C06': [r'field\.py:Field\.(ctypes_struct|__init__)', r'grid\.py:Grid\.(ctypes_struct|child_ctypes_struct|chunk_.*|__init__)', r'grid\.py:\w+Grid\.__init__', r'particle\.py:.*', r'tools/statuscodes\.py:.*', r'particlesets/\w+\.py:\w+\.(cstruct|ctypes_struct)',
            r'compilation/codegenerator\.py:(LoopGenerator\..*|KernelGenerator\.(generate|visit_FunctionDef|__init__|visit_ConstNode|visit_Field.*|visit_Vector.*))', r'kernel\.py:Kernel\.(execute_jit|__init__)',
            r'field\.py:(Field|VectorField)\.(ccode_eval|ccode_convert)', r'field\.py:Field\.(chunk_data|chunk_setup|get_block.*)', r'compilation/codegenerator\.py:(StatusCodeNode|ParticleNode|ParticleAttributeNode|ConstNode|FieldSetNode)\..*',
            r'c:(temporal_interpolation.*|getBlock.*|getCell.*|search_time_index|search_indices)'],
    'C07': [r'kernel\.py:Kernel\.(execute|execute_python|execute_jit)', r'compilation/codegenerator\.py:LoopGenerator\..*', r'particle\.py:(_Particle|ScipyParticle|JITParticle)\..*', r'particlesets/(collectionsoa|iterators)\.py:\w*Accessor\w*\..*',
            r'particlesets/baseparticleset\.py:BaseParticleSet\.execute', r'particlesets/\w+\.py:.*(_impute_release_times|_set_particle_vector|num_error_particles|error_particles)'],
    'C08': [r'kernel\.py:Kernel\.(execute|execute_python|execute_jit|remove_deleted.*|merge)', r'tools/statuscodes\.py:.*', r'particlesets/(particlesetsoa|baseparticleset)\.py:\w+\.(error_particles|num_error_particles|data_indices|remove_.*|indexed_subset|execute|__getitem__|__iter__)',
            r'particlesets/collectionsoa\.py:.*', r'particlesets/iterators\.py:.*', r'particle\.py:ScipyParticle\..*', r'particlefile\.py:ParticleFile\.(write|dump_dict_to_npy)', r'compilation/codegenerator\.py:LoopGenerator\..*'],
    'C09': [r'compilation/codegenerator\.py:.*', r'kernel\.py:(fix_indentation|Kernel\.(__init__|merge|__add__|__radd__|_cache_key))', r'field\.py:(Field|VectorField)\.(ccode_eval|ccode_convert)', r'tools/converters\.py:\w+\.ccode.*', r'rng\.py:.*',
            r'particlesets/(baseparticleset|particlesetsoa)\.py:\w+\.Kernel', r'c:(temporal_.*|parcels_.*|is_.*)'],
    'C10': [r'tools/converters\.py:(UnitConverter|Geographic\w*)\..*', r'field\.py:Field\.(eval|__init__|ccode_convert|ccode_eval|from_netcdf|from_xarray|__getitem__)', r'field\.py:(VectorField|SummedField|NestedField)\..*', r'fieldset\.py:FieldSet\.(check_complete|add_field|add_constant_field|__init__|add_vector_field)',
            r'compilation/codegenerator\.py:KernelGenerator\.visit_\w*Field\w*', r'grid\.py:Grid\.lon.*'],
    'C11': [r'particlesets/collectionsoa\.py:.*', r'particlesets/collections\.py:.*', r'particlesets/iterators\.py:.*', r'particlesets/particlesetsoa\.py:ParticleSetSOA\.(?!show|density|from_).*', r'particle\.py:.*',
            r'particlesets/baseparticleset\.py:BaseParticleSet\.(__iter__|__getattr__|collection|cstruct|_set_particle_vector)'],
    'C12': [r'particlesets/particlesetsoa\.py:.*', r'particlesets/baseparticleset\.py:BaseParticleSet\.(?!show|execute$|__create_progressbar).*', r'particlesets/collectionsoa\.py:(ParticleCollectionSOA\.__init__|_convert_to_flat_array|ParticleCollectionSOA\.(add_.*|__iadd__|set_variable_write_status))',
            r'particle\.py:.*', r'particlesets/baseparticleset\.py:BaseParticleSet\.execute', r'field\.py:Field\.(calc_cell_edge_sizes|cell_areas)'],
    'C13': [r'particlesets/baseparticleset\.py:BaseParticleSet\.(execute|_impute_release_times|__create_progressbar)', r'particlesets/particlesetsoa\.py:.*(_impute_release_times|__init__|__iadd__|add|_convert_to_reltime)', r'fieldset\.py:FieldSet\.computeTimeChunk',
            r'kernel\.py:Kernel\.(execute|execute_python|execute_jit)', r'particlefile\.py:ParticleFile\.(__init__|write)', r'particlesets/collectionsoa\.py:(_to_write_particles|_is_particle_started_yet|ParticleCollectionSOA\.toDictionary)'],
    'C14': [r'particlefile\.py:.*', r'particlesets/collectionsoa\.py:(_to_write_particles|_is_particle_started_yet|ParticleCollectionSOA\.(toDictionary|toArray|set_variable_write_status|__getattr__))', r'scripts/convert_npydir_to_netcdf\.py:.*',
            r'particlesets/particlesetsoa\.py:ParticleSetSOA\.(from_particlefile|to_dict|ParticleFile|set_variable_write_status)', r'particlesets/baseparticleset\.py:BaseParticleSet\.(from_particlefile|ParticleFile|execute)', r'kernel\.py:Kernel\.(remove_deleted.*|execute)',
            r'particle\.py:Variable\..*'],
    'C15': [r'field\.py:Field\.(chunk.*|get_block.*|computeTimeChunk|data_concatenate|rescale_and_set_minmax|advancetime|reshape|from_netcdf|from_xarray|ctypes_struct|add_periodic_halo|set_scaling_factor|set_depth_from_field|get_dim_filenames|__init__|eval|spatial_interpolation|interpolator.*|time_index)', r'field\.py:DeferredArray\..*', r'field\.py:VectorField\.(eval|spatial_.*)',
            r'fieldset\.py:FieldSet\.(computeTimeChunk|advancetime|from_netcdf|from_xarray_dataset|add_periodic_halo)', r'grid\.py:Grid\.(computeTimeChunk|chunk_.*|advancetime|__init__|child_ctypes_struct|ctypes_struct)', r'grid\.py:\w+\.add_periodic_halo', r'fieldfilebuffer\.py:.*', r'kernel\.py:Kernel\.(execute|execute_jit|execute_python)', r'c:(getCell|getBlock).*', r'c:temporal_.*',
            r'particlesets/baseparticleset\.py:BaseParticleSet\.execute'],
    'C16': [r'grid\.py:.*', r'gridset\.py:.*', r'field\.py:Field\.(add_periodic_halo|reshape|__init__|calc_cell_edge_sizes|cell_areas)', r'fieldset\.py:FieldSet\.(add_periodic_halo|add_field|check_complete)'],
    'C17': [r'kernels/.*'],
    'C18': [r'rng\.py:.*', r'c:parcels_.*', r'compilation/codegenerator\.py:(RandomNode|MathNode)\..*', r'compilation/codegenerator\.py:IntrinsicTransformer\.visit_(Name|Attribute|Call)', r'particlesets/baseparticleset\.py:BaseParticleSet\.execute', r'kernel\.py:Kernel\.__init__'],
    'C19': [r'fieldset\.py:.*', r'field\.py:Field\.(__init__|from_.*|get_dim_filenames|collect_timeslices|reshape|set_.*|write|rescale_and_set_minmax|computeTimeChunk|data_concatenate|chunk_setup)', r'field\.py:(VectorField|SummedField|NestedField)\.__init__', r'field\.py:VectorField\._check.*', r'gridset\.py:.*', r'fieldfilebuffer\.py:.*', r'grid\.py:.*'],
    'C20': [r'field\.py:(SummedField|NestedField|VectorField)\..*', r'field\.py:Field\.(__add__|eval|__getitem__|ccode_eval|ccode_convert)', r'compilation/codegenerator\.py:(\w*(Summed|Nested|Vector)\w*\..*|KernelGenerator\.visit_\w*(Summed|Nested|Vector)\w*|FieldSetNode.*|FieldNode.*|FieldEval.*|IntrinsicTransformer\..*|KernelGenerator\.(visit_FieldEvalNode|visit_FunctionDef|generate|__init__|_check.*))', r'c:temporal_.*',
            r'fieldset\.py:FieldSet\.(add_field|add_vector_field|check_complete|get_fields)', r'kernel\.py:Kernel\.(__init__|execute_jit|execute_python)'],
    'C21': [r'tools/converters\.py:(TimeConverter\..*|_get_cf.*|convert_xarray_time_units)', r'field\.py:Field\.(collect_timeslices|__init__|from_netcdf|from_xarray|write)', r'particlesets/baseparticleset\.py:BaseParticleSet\.(execute|from_.*)', r'particlesets/particlesetsoa\.py:(_convert_to_reltime|ParticleSetSOA\.(__init__|from_.*))', r'fieldset\.py:FieldSet\.(add_field|check_complete|from_.*)', r'gridset\.py:.*', r'grid\.py:(Grid|\w+Grid)\.__init__',
            r'fieldfilebuffer\.py:NetcdfFileBuffer\.time.*', r'particlefile\.py:(_set_calendar|ParticleFile\.(__init__|open_netcdf_file|export|write|add_metadata))', r'kernel\.py:Kernel\.execute.*', r'tools/statuscodes\.py:.*'],
    'C22': [r'kernel\.py:.*', r'compilation/codecompiler\.py:.*', r'particlesets/baseparticleset\.py:BaseParticleSet\.(execute|Kernel)', r'particlesets/particlesetsoa\.py:ParticleSetSOA\.Kernel', r'tools/global_statics\.py:.*', r'rng\.py:RandomC\..*', r'particle\.py:\w+\._cache_key'],
}
EXCLUDE = re.compile(r'(examples/|plotting\.py|scripts/(get_examples|plottraj)|.*\.show\b|tools/(loggers|timer)\.py)')

# module globals and class attributes belong to the properties anchored in these files
FILES = {
    'C05': ['tools/statuscodes.py'], 'C06': ['tools/statuscodes.py', 'particle.py', 'grid.py'], 'C08': ['tools/statuscodes.py'], 'C10': ['tools/converters.py'],
    'C07': ['particle.py'], 'C11': ['particle.py', 'particlesets/collectionsoa.py'], 'C12': ['particle.py'], 'C14': ['particle.py'], 'C18': ['rng.py'], 'C09': ['compilation/codegenerator.py', 'rng.py'],
    'C22': ['compilation/codecompiler.py', 'kernel.py', 'tools/global_statics.py'], 'C16': ['grid.py'], 'C21': ['tools/converters.py'], 'C20': ['field.py'], 'C17': ['kernels/advection.py', 'kernels/advectiondiffusion.py', 'kernels/EOSseawaterproperties.py', 'kernels/TEOSseawaterdensity.py'],
    'C19': ['fieldset.py', 'fieldfilebuffer.py', 'field.py'], 'C15': ['field.py', 'fieldfilebuffer.py', 'grid.py'],
    'C01': ['field.py'], 'C13': ['particlesets/baseparticleset.py'],
}


def key(f):
    if f.lang == 'c':
        return 'c:' + f.name
    rel = f.module.relpath
    return (rel[8:] if rel.startswith('parcels/') else rel) + ':' + f.qual


def anchored(prop, funcs):
    pats = [re.compile(p) for p in ANCHORS[prop]]
    out = []
    for f in funcs:
        k = key(f)
        base = k.split('@')[0]
        if EXCLUDE.match(k):
            continue
        if any(p.fullmatch(base) for p in pats):
            out.append(f)
    return out
