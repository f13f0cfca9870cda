#!/usr/bin/env python3
"""Writes DESIGN.md (run by hand; output is committed)."""
import json,os,sys
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
how={
'C01':"Python `Field.spatial_interpolation/interpolator2D/3D/eval` and the C `spatial_interpolation_*`, `temporal_interpolation*`, `getCell*/getBlock*`, plus the generated call text. The polynomials over cell nodes and relative coordinates are compared exactly; status and time selection by path conditions. Rule `structures-agree` (layout of the arrays the C side interpolates).",
'C02':"C-grid velocity (2D, 3D, both index conventions), partial-slip/free-slip free functions, Jacobians and shape functions in Python and C. All are rational functions of node values, compared exactly.",
'C03':"index search of all four grid types in both modes, wrap-around and fold reconnection, index initialisation. Search loops: transition relation of one arbitrary iteration, entry and exit conditions. Rule `undefined-position-rejected`.",
'C04':"time index search (Python/C), periodic time, deferred window selection, full time axis, extrapolation test.",
'C05':"error discipline: every path of sampling functions, kernel loop, recovery; rules `status-looked-at`, `undefined-position-rejected`, `codes-agree`.",
'C06':"what Python hands to compiled code and back: argument lists, structures, constants; generated loop text. Rules `codes-agree`, `structures-agree`.",
'C07':"the kernel loop in both modes (Python `execute_python`, text written by `LoopGenerator`): dt truncation, repeat, back-up/restore, state transitions.",
'C08':"deletion, recovery, state transitions and removal from the collection.",
'C09':"the translation from kernel source to C: each visitor's emitted text as a term over its children; C operators/precedence; functions available to kernels.",
'C10':"unit converters and the places where they are applied (Python eval, generated conversion text, default converters). Rules `codes-agree`, `structures-agree` for the grid type tests they depend on.",
'C11':"the particle collection: every operation as an effect trace over its arrays, iterators and accessors.",
'C12':"set construction from every source, defaults, once-written variables, restart.",
'C13':"execution schedule: release times, output times, repeatdt, run length, direction.",
'C14':"output: which particles and variables are dumped, indices, attributes, merge of pieces, conversion script.",
'C15':"deferred and chunked loading: window state machine, chunk request/load protocol on both sides, re-use of buffers.",
'C16':"grids: factories, extents, halos, depth handling, cell sizes, grid sharing.",
'C17':"all kernels in parcels/kernels as value flows; rules `order-conditions` (Butcher tableau read off the source, exact order conditions to order 4, error estimate to order 5) and `stochastic-schemes`. TEOS/EOS polynomials are compared exactly with the reviewed coefficients.",
'C18':"rng.py, random.h and the names offered to kernels.",
'C19':"every constructor of Field/FieldSet: where each option flows, for every branch; file buffers.",
'C20':"summed/nested/vector fields in Python and in the generated text.",
'C21':"time conversions and every place where a date is accepted.",
'C22':"compile/load/remove life cycle, cache keys, merging.",
}
bugs={}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); bugs.setdefault(m['property'],[]).append((d,m['what_it_breaks']))
NA={'C23':'convergence order quantifies over floating-point trajectories of arbitrary flows; no static argument in reach bounds it (its static core is C17, C01, C02).',
'C24':'resident memory is a runtime quantity of dask, netCDF and the allocator (the chunk-dropping protocol it rests on is C15).',
'C25':'equality of a parallel and a serial run depends on the MPI schedule and the file system, and relates two executions of external code; mpi4py is not installed.',
'C26':'a statement about the distribution of libc rand(); static analysis can show that the documented transformation is applied (C18), no more.'}
o=open('/verif/tools/DESIGN.head.md').read()
o+='\n## Per property\n\nCost of each check: 5–20 s (quick), up to a few minutes (thorough). "Reference" below is the reviewed copy in `ref/parcels`.\n\n'
for p in props:
    i=p['id']
    o+='### %s %s\n'%(i,p['title'])
    if i in NA: o+='Not applicable: '+NA[i]+'\n\n'; continue
    o+='Analysed: '+how[i]+'\n'
    if i in bugs:
        o+='Planted: '+'; '.join('`%s` (%s)'%b for b in bugs[i])+' — caught by this check.\n'
    o+='\n'
o+=open('/verif/tools/DESIGN.tail.md').read()
open('/verif/DESIGN.md','w').write(o)
