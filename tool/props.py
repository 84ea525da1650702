#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tool/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=(), observe=(), na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    PROPS.append((d, technique, note, na))

API = ['src/mmg3d/API_functions_3d.c', 'src/mmgs/API_functions_s.c', 'src/mmg2d/API_functions_2d.c']
P('A01', 'Mesh data set through the library API is the data the library reads back',
  'For every kind of entity (vertices, edges, triangles, quadrilaterals, tetrahedra, prisms, normals, scalar, vector and tensor solutions) and in each of the three libraries, '
  'the values given to a setter are stored in that entity, component by component and with its reference, and the matching getter delivers them from the same components. '
  'The one-at-a-time, by-index and whole-array forms of an operation agree with each other on the numbering and on the layout of every component, and optional outputs passed as a null pointer are not written.',
  ['inputs', 'programs'], 'Every setter and getter of the three libraries, every component, every index and every combination of optional outputs.',
  'The API tests read back a handful of entities with one library and never compare the array and the indexed forms component by component.',
  API + ['src/common/API_functions.c'], [('setters and getters', 'MMG3D_/MMGS_/MMG2D_ Set_*/Get_* in API_functions_*.c')],
  'symbolic dataflow of every load/store in the setters and getters (LLVM IR) against a table entity/component/array layout, plus agreement of sibling forms',
  'Every store of the setters and getters is resolved to an access path and compared with the frozen layout table. Trusts clang IR generation.')
P('A02', 'Indices beyond the declared sizes are refused before anything is written',
  'A call that gives the data of a vertex, an element, an edge or a solution value at a position larger than the number of entities declared for the mesh or the solution (for solution values, also at a position below 1) returns failure and modifies no entity and no value. '
  'This holds in the three libraries for every setter that takes the data and a position, in release builds as well as in builds with assertions; the setters of one field among several report the refusal.',
  ['inputs', 'configurations'], 'Every setter taking the data of an entity and a position, every position value above the declared count, with and without assertions compiled in.',
  'Tests only pass valid positions and run with assertions enabled, which hides guards that exist only as assertions.',
  API, [('position guards', 'MMG3D_Set_vertex and siblings')],
  'path rule over the CFG: every store of such a setter is reached only through edges that imply position <= declared count; refusing edges lead to failure returns and no store',
  'Sound for the upper bound on the release (NDEBUG) IR; marks (corner, required, ridge, parallel) and normals only assert their position and are outside the statement.')
P('A03', 'Every parameter reaches its own setting, and only that one',
  'Setting an integer or real parameter through the API changes the setting that parameter is documented to control, to the given value, and no setting that belongs to an unrelated parameter; reading an integer parameter returns the setting that setting it changes. '
  'An identifier the library does not know makes the call fail and changes nothing.',
  ['inputs', 'configurations'], 'Every parameter identifier of the three libraries, every value.',
  'Tests set a few parameters to a few values; a parameter stored in a neighbouring setting is only seen when both matter to the sampled mesh.',
  API + ['src/mmg3d/libmmg3d.h', 'src/mmgs/libmmgs.h', 'src/mmg2d/libmmg2d.h'], [('parameter switches', 'MMG3D_Set_iparameter, MMG3D_Set_dparameter, MMG3D_Get_iparameter and siblings')],
  'enumeration of every switch case of the setters and getters and of the settings stored or returned on the paths of that case, against a frozen table',
  'Exhaustive over parameter identifiers; values are compared symbolically.')
P('A04', 'A command-line option means the same as the parameter it is documented for',
  'Every command-line option of the three programs sets the parameter it stands for, with the value written after it, and no other parameter; options that exist in several programs set the same parameter in each of them. '
  'An option that needs a value and is the last word of the command line is refused instead of reading past the arguments.',
  ['inputs', 'configurations'], 'Every option of mmg2d, mmgs and mmg3d, every position in the argument list.',
  'The command-line tests use a small set of options, always well formed.',
  ['src/mmg3d/libmmg3d_tools.c', 'src/mmgs/libmmgs_tools.c', 'src/mmg2d/libmmg2d_tools.c'], [('argument parsers', 'MMG3D_parsar, MMGS_parsar, MMG2D_parsar')],
  'extraction of the option -> parameter map from the branch structure of the parsers (constant-string comparisons), compared with a frozen table and across siblings; guard rule on argument accesses',
  'Exhaustive over the option comparisons found in the parsers.')
P('A05', 'The Fortran interface is an exact image of the C interface',
  'Calling a routine through its Fortran name has the effect of calling the C routine of the same name with the same arguments in the same order, and delivers its return value in the status argument. '
  'No Fortran entry adds, drops, reorders, rescales or substitutes an argument.',
  ['programs', 'inputs'], 'Every Fortran entry point of the three libraries and every argument.',
  'Only a few Fortran entry points are exercised, and not in this build (no Fortran tests in the stable set).',
  ['src/mmg3d/API_functionsf_3d.c', 'src/mmgs/API_functionsf_s.c', 'src/mmg2d/API_functionsf_2d.c', 'src/common/API_functionsf.c', 'src/mmg3d/libmmg3df.c', 'src/mmgs/libmmgsf.c', 'src/mmg2d/libmmg2df.c'],
  [('Fortran wrappers', 'FORTRAN_NAME / FORTRAN_VARIADIC definitions')],
  'per-wrapper argument-flow comparison on LLVM IR (single call, identity forwarding, return value stored), all name manglings',
  'Exhaustive over the Fortran entry points compiled in this configuration.')
P('A06', 'Builds with and without assertions behave the same',
  'Compiling the library with assertions disabled does not change what any function does: no assertion condition has a side effect on which later code relies, and no code that changes data or status is present in only one of the two builds. '
  'The only permitted difference is that the build with assertions stops when an assertion fails.',
  ['configurations', 'inputs'], 'Every function of the libraries and programs in the two builds.',
  'The test suite is only ever run in one of the two configurations (assertions on).',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('assert()', 'all sources'), ('NDEBUG sections', 'all sources')],
  'lockstep comparison of the two compiled forms of every function: events (stores, effectful calls), decisions and returns in the same order with values equal in the data-flow graphs (partition refinement), after slicing away what only feeds assertions and messages',
  'Every function of every C unit, every path; values are compared structurally in the IR. Accepted: initialisation of a local with a constant in one build only when the other build sets the variable elsewhere; SCOTCH_graphCheck counts as an additional read-only check; a bit of a status that only selects messages.')
P('A07', 'Verbosity and debug level change messages, never the result',
  'The verbosity and debug settings only decide which messages are printed and whether additional consistency checks are run: for a given input the mesh, the solutions and the returned status are the same for every value of them, except that a failed additional consistency or quality report may stop the run. '
  'In particular no data is allocated, freed, modified or left unmodified because of the verbosity.',
  ['configurations', 'inputs'], 'Every function that looks at the verbosity or debug level; every level.',
  'Tests run at one verbosity level each and never compare results across levels.',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('verbosity tests', 'uses of info.imprim and info.ddebug')],
  'differential reachability: constant propagation of the verbosity/debug values through each CFG; blocks and phi edges that differ between levels, what depends on values chosen there, and what is executed depending on such values, must be free of lasting effects (interprocedural effect summaries, level-dependent results followed into the callers)',
  'Every C routine of the libraries and the programs. Exits with a failure status after an additional check or report are left out; time measurement, the qualities that the quality reports store, and the text buffer of a message are accepted.',
  state=[('info.imprim / info.ddebug', 'verbosity and debug level', 'MMG5_Info in src/common/libmmgtypes.h')])
P('A08', 'A call depends only on its arguments: no memory of earlier calls or meshes',
  'The library keeps no data between calls outside the structures the caller owns: processing one mesh does not influence the processing of another one, and repeating a call on equal inputs gives an equal result. '
  'Persistent state is limited to switches that suppress repeated warnings and to the operator selection that every entry point renews, and no result depends on time, random numbers, addresses, the environment (other than the MMG_* debugging variables) or the identity of the process; only the default memory budget is taken from the machine.',
  ['histories', 'inputs'], 'Every sequence of library calls on any number of meshes in one process.',
  'Each test processes one mesh in a fresh process, so residues of an earlier call are never seen.',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('static variables', 'all sources'), ('operator pointers', 'src/*/mmg*externs.c')],
  'classification of every use of every mutable global and static variable (region analysis for message switches), interprocedural must-assign analysis of the operator pointers, who-may-call rule on nondeterministic library functions',
  'Exhaustive over mutable globals/statics of the C units and over all paths of the main routines. Reads of uninitialised memory are outside.')
P('A09', 'A library call never takes over or ends the calling process',
  'No C library routine ends the process, closes its standard streams or changes process-wide settings, and every main routine of the libraries puts the signal dispositions it installed back to default on every way out. '
  'Ending the process is reserved to the three command-line programs, to the handlers of fatal signals, and to the Fortran wrappers of the routines with variable arguments, which have no status argument.',
  ['inputs', 'fault_sequences'], 'Every library routine, every path to a return, including failures.',
  'Tests do not check signal dispositions after a call and seldom reach failure paths.',
  ['src/common/mmgcommon_private.h', 'src/mmg3d/libmmg3d.c', 'src/mmgs/libmmgs.c', 'src/mmg2d/libmmg2d.c'], [('_LIBMMG5_RETURN', 'src/common/mmgcommon_private.h'), ('MMG5_excfun', 'src/common/mmgcommon_private.h')],
  'who-may-call on process-ending functions over the call graph; pairing of signal installation and restoration on every CFG path of each entry point', 'Exhaustive over functions and CFG paths.')
P('A10', 'Memory accounting is exact and the memory budget is enforced',
  'Every array charged to the memory budget of the mesh is charged for exactly the bytes that are allocated, is allocated only after the budget was checked, and is credited back with what was allocated when it is released. '
  'When the budget is exceeded the operation fails without allocating.',
  ['inputs', 'configurations', 'fault_sequences'], 'Every allocation site of the library, every size, every memory limit.',
  'A wrong charge is invisible unless a run comes close to its limit; tests use limits far above the need.',
  ['src/common/mmgcommon_private.h', 'src/common/API_functions.c', 'src/mmg3d/zaldy_3d.c', 'src/mmgs/zaldy_s.c', 'src/mmg2d/zaldy_2d.c'], [('MMG5_ADD_MEM, MMG5_SAFE_CALLOC, MMG5_DEL_MEM', 'src/common/mmgcommon_private.h')],
  'pairing of each budget charge with the allocation it dominates, comparing the two byte expressions symbolically; budget check dominance',
  'Every update of the memory counter in the C units is classified.',
  state=[('memCur, memMax', 'bytes charged and limit', 'MMG5_Mesh in src/common/libmmgtypes.h')])
P('A11', 'A failed allocation or a file that cannot be opened is detected before use',
  'The result of every memory allocation and of every attempt to open a file is tested for failure on every path before it is used. '
  'A routine that hands on a possibly missing resource, as its result or in an object of its caller, leaves that test to its callers, and every caller makes it before using the resource.',
  ['fault_sequences', 'inputs'], 'Every allocation and file-opening site; failure at any of them.',
  'Tests never make an allocation or an open fail.',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('MMG5_SAFE_MALLOC/CALLOC/REALLOC', 'src/common/mmgcommon_private.h'), ('fopen', 'inout*.c')],
  'typestate dataflow (unchecked -> checked) on allocation and fopen results over the CFG', 'Every call site of malloc/calloc/realloc wrappers and fopen in the C units.')
P('A12', 'Files and temporary memory are released on every way out',
  'Every file a routine opens is closed before the routine returns, on success and on every failure path, unless the open file is what the routine hands to its caller; and every temporary buffer that a routine allocates for itself is released on every way out. '
  'A failed call therefore leaks neither a file descriptor nor memory.',
  ['inputs', 'fault_sequences'], 'Every routine that opens a file or allocates a local buffer, every path to a return.',
  'Leaks do not change the output of a test and the tests do not run failure paths.',
  ['src/common/inout.c', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('fopen/fclose', 'inout*.c, libmmg*_tools.c'), ('MMG5_SAFE_CALLOC / MMG5_SAFE_FREE', 'all sources')],
  'typestate dataflow (opened/allocated -> released) with escape analysis over the CFG, path-refined by null tests', 'Every local file handle and every local buffer of the C units.')
P('A13', 'No pointer into a growable array is used after the array may have moved',
  'When an operation enlarges the tables of points, elements or boundary data, no code goes on using an address into the old table. '
  'After any call that may reallocate such a table every access is made through a freshly computed address.',
  ['inputs', 'histories'], 'Every function holding an address into a growable table across a call that may reallocate it, whatever the moment the table fills up.',
  'Needs a table to be full exactly at that call; initial sizes make that rare in the sampled meshes, and freed memory often still holds the old data.',
  ['src/mmg3d', 'src/mmgs', 'src/mmg2d'], [('reallocation', 'MMG3D_POINT_REALLOC, MMG3D_TETRA_REALLOC and siblings in mmg3d/zaldy_3d.c, mmgs, mmg2d')],
  'interprocedural may-reallocate summaries per table and forward dataflow of derived addresses across calls',
  'Every address into the tracked tables in the C units; address values stored in memory other than locals are outside.')
P('A14', 'Wide-integer builds keep every entity number wide',
  'In a build with 64-bit integers, no entity number, count, reference or edge key is narrowed to 32 bits between the place where it is read or computed and the place where it is stored, passed on or written to a file. '
  'Formatted input and output of such numbers uses a conversion of matching width.',
  ['configurations', 'inputs'], 'Every conversion of an integer in the 64-bit configuration, every format string.',
  'The test suite is run with 32-bit integers and meshes far below the 32-bit limit.',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('MMG5_int, MMG5_PRId', 'src/common/mmgcmakedefines.h.in')],
  'query on the IR of a 64-bit configuration: every truncation of a value that carries entity numbers, and format/argument width agreement', 'Every truncation and every printf/scanf-family call of the C units.')
P('A15', 'Files written are read back under the same keywords and in the same layout',
  'For the Medit text and binary formats, each section the library writes carries the keyword, the binary code and the number and order of fields per entity under which the library reads that section. '
  'The same section has the same keyword and code in all three libraries.',
  ['inputs', 'programs'], 'Every section kind of the mesh and solution files in text and binary form.',
  'Tests save and reload few section kinds and almost only in text.',
  ['src/common/inout.c', 'src/mmg3d/inout_3d.c', 'src/mmgs/inout_s.c', 'src/mmg2d/inout_2d.c'], [('readers/writers', 'MMG3D_loadMesh_opened, MMG3D_saveMesh and siblings')],
  'extraction of keyword/code/field tables from the readers and the writers and comparison between them and across libraries', 'Exhaustive over the keyword comparisons and section writes found.')
P('A16', 'Binary files of the other byte order are read as the numbers they contain',
  'When a binary mesh or solution file was written with the opposite byte order, every number read from it is converted before it is used for anything. '
  'No number of a file in native byte order is converted.',
  ['inputs', 'configurations'], 'Every number read from a binary file, for both byte orders.',
  'No test file has the foreign byte order.',
  ['src/common/inout.c', 'src/mmg3d/inout_3d.c', 'src/mmgs/inout_s.c', 'src/mmg2d/inout_2d.c'], [('byte swapping', 'MMG5_swapbin, MMG5_swapd in src/common/inout.c'), ('recognition of the byte order', 'MMG5_readSolHeader, MMG5_loadMshMesh_part1, MMG*_loadMesh')],
  'interprocedural may-analysis of unconverted numbers (from each binary read to its conversion), run once for each byte order with the flag derived from the comparison of the first number of the file; byte reversals verified by following byte labels', 'Every binary read and every conversion of the loaders, in the configuration with 32-bit integers.')
P('A17', 'Operator switches really switch the operator off',
  'When point insertion and deletion, edge swapping or point relocation is disabled by its parameter (noinsert, noswap, nomove), no operation of that kind is applied to the mesh during remeshing, in any of the three libraries and by any path of calls.',
  ['configurations', 'inputs'], 'Every call path from a remeshing driver to an operation of a disabled kind.',
  'Tests compare no mesh against such a switch; only few are run with one.',
  ['src/mmg3d/mmg3d1.c', 'src/mmg3d/mmg3d1_delone.c', 'src/mmg3d/mmg3d1_pattern.c', 'src/mmgs/mmgs1.c', 'src/mmg2d/mmg2d1.c'], [('switch tests', 'info.noinsert, info.noswap, info.nomove')],
  'conditional constant propagation of the switch value (with the constants callees return) and reachability over the call graph pruned by it; no operator of the disabled kind may remain reachable',
  'Every remeshing driver and everything reachable from it; operator pointers resolved to all their targets. The vertex a swap inserts and deletes again is part of the swap. Lagrangian mode is not compiled here.')
P('A18', 'Every run uses the operators that belong to its own mesh kind and metric',
  'Whatever was run before in the same process, each main routine selects, before any use, the full set of dimension- and metric-dependent operators; each selected operator belongs to the library that was called and, once a metric is given or computed, to the isotropic or anisotropic kind of that metric; '
  'and the metric for which the operators are chosen is the one the phases then work with.',
  ['histories', 'configurations'], 'Every operator pointer, every metric type, every order of calls to the three libraries in one process.',
  'Each test runs one library on one mesh per process.',
  ['src/mmg3d/libmmg3d_tools.c', 'src/mmgs/libmmgs_tools.c', 'src/mmg2d/libmmg2d_tools.c', 'src/common/mmgexterns.c'], [('operator selection', 'MMG3D_setfunc, MMGS_setfunc, MMG2D_setfunc, MMG3D_Set_commonFunc')],
  'evaluation of the selection routines by conditional constant propagation for every kind of metric, dimension and stride rule for the chosen operators, interprocedural must-assign analysis of the operator pointers',
  'Exhaustive over operator pointers, metric kinds and public routines. The helpers searchqua, searchlen and doSol are documented to use the operators the caller chose.')
P('A19', 'A mesh handed back as usable is in the coordinates of the caller',
  'Whenever a main routine returns with a status saying that the mesh can be saved, the normalisation it applied to coordinates, sizes and solutions has been undone exactly once, for the mesh and for each solution of the caller it was applied to. '
  'This holds for the failure status that still delivers a conform mesh, too. Undoing the normalisation restores every quantity it changed.',
  ['inputs', 'fault_sequences'], 'Every path of every main routine from the normalisation to a return.',
  'The status with a usable mesh after a failure is hardly ever reached in tests, and the coordinates are not compared.',
  ['src/mmg3d/libmmg3d.c', 'src/mmgs/libmmgs.c', 'src/mmg2d/libmmg2d.c', 'src/common/scalem.c'], [('MMG5_scaleMesh / MMG5_unscaleMesh', 'src/common/scalem.c')],
  'typestate (caller frame / normalised frame, per object) propagated along every path of the main routines; symbolic comparison of the powers of the box size the two routines multiply each quantity with',
  'Every path to every return of the ten main routines. Numerical round-off is outside. The status of strong failure promises nothing.')
P('A20', 'A failed phase is never reported as success',
  'When a phase of a main routine (analysis, metric definition, splitting, remeshing, packing, ...) fails, the main routine returns a failure status; success is returned only if every phase succeeded. '
  'Inside the phases, a failed sub-phase makes the phase fail, and wherever a routine returns a negative error status, its callers hand on the failure instead of continuing as if the operation had succeeded.',
  ['inputs', 'fault_sequences'], 'Every call in the main routines and phases whose callee can report failure, every call of a routine with a negative error status.',
  'Failures of phases are not provoked by the tests.',
  ['src/mmg3d/libmmg3d.c', 'src/mmgs/libmmgs.c', 'src/mmg2d/libmmg2d.c', 'src/mmg3d/mmg3d1.c', 'src/mmg3d/mmg3d1_delone.c', 'src/mmgs/mmgs1.c', 'src/mmg2d/mmg2d1.c'], [('status tests', 'main routines, phases, operator loops')],
  'path-state propagation of call statuses through main routines and phases; for every call with a possible negative status, forward propagation of that status to the returns of the caller',
  'Every call site with such a status. Negative statuses that answer a question, and loops of tentative improvements that go on after a refused attempt, are listed in the check with the reason. Failures reported as 0 by operators of the remeshing loops (where 0 also means not applicable) are outside.')
P('A21', 'Freeing gives back everything the library allocated',
  'After the release routines, every array the library can attach to a mesh or a solution has been released and is no longer referenced, whatever was set or run before.',
  ['histories', 'inputs'], 'Every array reachable from the mesh, solution and level-set structures.',
  'Leaks do not change outputs, and the tests do not run a leak checker.',
  ['src/mmg3d/variadic_3d.c', 'src/mmgs/variadic_s.c', 'src/mmg2d/variadic_2d.c', 'src/common/API_functions.c'], [('release routines', 'MMG3D_Free_all_var and siblings')],
  'ownership analysis: every structure field that is ever assigned an allocation must be released on the release routines', 'Exhaustive over the pointer fields.')
P('A22', 'Reading and saving leave the mesh as it is',
  'Routines that read out or save a mesh, a solution or a parameter do not alter the geometry, the connectivity, the references, the solutions or the parameters they report; and routines that take arrays of the caller only read them.',
  ['histories', 'inputs'], 'Every getter, every saver, every array argument of a setter.',
  'Tests end after saving, so a side effect of saving is not seen.',
  API + ['src/mmg3d/inout_3d.c', 'src/mmgs/inout_s.c', 'src/mmg2d/inout_2d.c'], [('getters and savers', 'Get_*, save*')],
  'interprocedural write-effect summaries of getters, savers and of array parameters', 'Exhaustive over the public getters, savers and setters. Working fields (cursors, numbering, marks, derived neighbourhood) may change; the routines that build the neighbourhood or list interior entities behind the used part of an array may compact the arrays.')
P('A23', 'Neighbourhood walks never write past their fixed-size lists',
  'Whatever the number of elements around a point or an edge, the routines that collect them in a caller-supplied or local list of fixed capacity stop with an error or a refusal instead of writing past its end.',
  ['inputs'], 'Every write to a fixed-capacity list inside a loop, every mesh topology.',
  'Needs a point or edge with more neighbours than any sampled mesh has.',
  ['src/mmg3d/boulep_3d.c', 'src/mmg2d/boulep_2d.c', 'src/mmgs/boulep_s.c', 'src/common/boulep.c'], [('capacity tests', 'MMG3D_LMAX, MMG2D_LONMAX, MMGS_LMAX')],
  'dataflow on list counters: every increment used as list index in a loop is bounded by a comparison with the capacity', 'Every list-filling loop in the listed families.')
P('A24', 'Text is never copied beyond its buffer',
  'File names, keywords, option words and messages of any length are handled without writing past the buffer that receives them.',
  ['inputs'], 'Every string copy, concatenation, formatted print and formatted read into a buffer.',
  'Tests use short names and well-formed files.',
  ['src/common/inout.c', 'src/common/tools.c', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('string handling', 'strcpy, strcat, sprintf, fscanf %s')],
  'bound rule per string write: destination capacity (constant or allocation expression) against source length expression or format width', 'Every string-writing call of the C units.')
P('A25', 'Required and corner vertices never move and are never removed',
  'No remeshing operation changes the coordinates of a vertex the user marked as required or as a corner, nor deletes it: relocation and collapse are only applied to vertices whose markings were found to allow it.',
  ['inputs', 'histories'], 'Every relocation and collapse site of the three libraries.',
  'Few tests have required vertices and none compares their positions.',
  ['src/mmg3d', 'src/mmgs', 'src/mmg2d'], [('tag tests', 'MG_REQ, MG_CRN, MG_SIN')],
  'interprocedural obligations (each coordinate write and each removal of a vertex) discharged by a forward must-analysis of mark bits known to be clear, path-split on conditions tested again',
  'Every coordinate write and every removal in the three libraries; a vertex named through a neighbourhood list is the vertex whose neighbourhood was built. A corner mark only counts for boundary vertices (marks of interior vertices are not corners of the boundary).')
P('A31', 'Released memory and closed files are never used or released again',
  'Once a block of memory is released or a file is closed, nothing reads or writes through that pointer, releases it or closes it again, in the routine that released it or in any routine it returns to, whatever the path. '
  'A routine of the library interface never returns with the mesh or another structure of its caller still pointing to a block it has released.',
  ['inputs', 'fault_sequences', 'histories'], 'Every release and every closing of a file, all paths after it, including the callers it returns to with the status it returns.',
  'Releases on failure paths and unusual sequences of calls are not run by tests, and a use after release often goes unnoticed when it is.',
  ['src/common', 'src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('MMG5_SAFE_FREE, MMG5_DEL_MEM, myfree', 'src/common/mmgcommon_private.h'), ('fclose', 'inout*.c, libmmg*_tools.c'), ('Free_* and Set_meshSize', 'API_functions*.c, variadic_*.c')],
  'typestate dataflow (released -> never used again) with interprocedural summaries over the CFG, path-refined by null tests and statuses', 'Every release and closing site of the C units; pointers kept in a second structure are followed only where the routine that copied them is on the path.')
P('A26', 'The tables of local numbering describe the elements consistently',
  'The constant tables that number the edges, faces and vertices of triangles, tetrahedra and prisms agree with each other: each edge and face lists exactly its own vertices, opposite entities are really opposite, cyclic successors and predecessors are inverse, and orientations are coherent. '
  'Copies of the same table in different libraries are equal.',
  ['programs', 'inputs'], 'Every entry of every local numbering table.',
  'An entry used only for a rare configuration is not reached by the sampled meshes.',
  ['src/common/mmgcommon_private.h', 'src/mmg3d/libmmg3d_private.h', 'src/mmg2d/libmmg2d_private.h', 'src/mmgs/libmmgs_private.h'], [('tables', 'MMG5_idir, MMG5_iare, MMG5_ifar, MMG5_arpt, ...')],
  'exhaustive evaluation of the defining relations on the constant initialisers', 'Complete: every entry of each table is covered by a relation that fixes it.')
P('A27', 'Subdivision hands material and boundary data down to exactly the new entities that lie on the old ones',
  'When a tetrahedron or triangle is subdivided, every new element carries the material reference of its parent; every new face or side lying on a face or side of the parent carries its reference and tags, '
  'every new edge lying on an edge of the parent carries that edge\'s tag and reference; edges drawn across a boundary face are marked as belonging to that face and carry no reference; '
  'faces and edges created inside carry no boundary data and are flagged as inside. Each boundary element has its own boundary record.',
  ['inputs', 'histories'], 'Every edge-mark pattern, vertex order and choice of boundary faces of every subdivision operator of the three libraries.',
  'References are mostly uniform in the sampled meshes, most patterns are rare, and the tests do not compare tags.',
  ['src/mmg3d/split_3d.c', 'src/mmgs/split_s.c', 'src/mmg2d/split_2d.c'], [('subdivision operators', 'MMG5_split1 .. MMG5_split6, MMG5_split1b, MMG5_split4bar, MMGS_split*, MMG2D_split*')],
  'value-flow of labels by abstract interpretation (disjunctive constant propagation) over all patterns', 'Complete for the patterns of the subdivision operators; allocation is assumed to succeed without moving the arrays (see A13).')
P('A28', 'Subdivision cuts an element into valid pieces that fill it and match its neighbours',
  'For every set of marked edges, the subdivision of a tetrahedron or triangle consists of positively oriented elements that fill the parent exactly once, and each face of the parent is cut in a way that depends only on the marks '
  'and the global vertex numbers of that face, so that the element across the face is cut alike. The simulation that accepts a subdivision tests every element the subdivision creates, and each pattern is sent to the routine made for it.',
  ['inputs', 'histories'], 'Every edge-mark pattern (63 for tetrahedra, 7 for triangles) and every order of the global vertex numbers.',
  'The sampled meshes reach few patterns and orders, and the tests do not check conformity of the result.',
  ['src/mmg3d/split_3d.c', 'src/mmgs/split_s.c', 'src/mmg2d/split_2d.c', 'src/mmg3d/mmg3d1.c', 'src/mmg3d/mmg3d2.c', 'src/mmg3d/mmg3d2s.c'], [('subdivision operators', 'MMG5_split1 .. MMG5_split6, MMG3D_split*_sim, MMGS_split*, MMG2D_split*')],
  'value-flow of labels by abstract interpretation (disjunctive constant propagation) over all patterns, exact barycentric geometry', 'Complete for the patterns of the subdivision operators; geometry of the combinatorial cut only (midpoints anywhere inside their edge).')
P('A29', 'Local operations on triangles keep the neighbour table and the side data true',
  'Splitting, swapping or collapsing an edge and inserting a vertex into a triangle, in the 2D and surface libraries, produce non-degenerate triangles with the same outline, in which the neighbour recorded across each side '
  'is the triangle that shares that side, in both directions. Sides that existed keep their tags and reference (merged sides get the tags of both and the larger reference, halves of a side get its data), new sides carry none; '
  'an operation that refuses leaves the triangles as they were.',
  ['inputs', 'histories'], 'Every position of the edge in its triangles, every presence of outer neighbours; collapses in balls of two to five triangles.',
  'A wrong neighbour or a lost tag in a rare configuration shows only much later, in a run that happens to walk there; tests compare neither.',
  ['src/mmgs/split_s.c', 'src/mmgs/swapar_s.c', 'src/mmgs/colver_s.c', 'src/mmg2d/split_2d.c', 'src/mmg2d/swapar_2d.c', 'src/mmg2d/colver_2d.c'],
  [('local operations', 'split1b, swapar, colver, colver2, colver3, MMG2D_split1b, MMG2D_splitbar, MMG2D_swapar, MMG2D_colver, MMG2D_colver2, MMG2D_colver3')],
  'value-flow of labels by abstract interpretation (disjunctive constant propagation) over a patch of elements', 'Complete for the patches described; larger balls go through the same code as balls of five. Whether an operation is geometrically admissible is not decided (see N01).')
P('A30', 'Local operations on tetrahedra keep the neighbour table and the boundary data true',
  'Splitting an edge with its whole shell, replacing two tetrahedra by three, inserting a vertex into a tetrahedron and collapsing an edge produce non-degenerate tetrahedra that fill the same patch, in which the neighbour recorded across each face '
  'is the tetrahedron that shares that face, in both directions. Boundary faces keep their reference, tags and orientation, inner faces carry none, boundary records are not shared, materials are kept, '
  'and edges carry only the tags and references of the edges they come from.',
  ['inputs', 'histories'], 'Every numbering configuration of the elements involved, the kinds of outer faces, shells of one to five and five kinds of balls.',
  'A wrong neighbour or a lost tag in a rare configuration shows only much later; tests compare neither.',
  ['src/mmg3d/split_3d.c', 'src/mmg3d/swap_3d.c', 'src/mmg3d/colver_3d.c'],
  [('local operations', 'MMG5_split1b, MMG3D_swap23, MMG5_split4bar, MMG5_colver')],
  'value-flow of labels by abstract interpretation (disjunctive constant propagation) over a patch of elements', 'Complete for the patches described. Whether an operation is geometrically admissible is not decided (see N01).')
def na(id, title, statement, over, text, why, files, mech, reason): P(id, title, statement, over, text, why, files, mech, na=reason)
na('N01', 'The output mesh is a valid conform mesh of the same domain',
  'The remeshed mesh has no overlapping or inverted elements, its elements match face to face, and it covers the domain of the input mesh.',
  ['inputs'], 'Every input mesh and parameter set.', 'Tests run a few meshes and only check the exit status.',
  ['src/mmg3d', 'src/mmgs', 'src/mmg2d'], [('remeshing', 'MMG5_mmg3d1_delone, MMG5_mmgs1, MMG2D_mmg2d1n')],
  'Quantifies over floating-point geometry and an unbounded sequence of operations; no sound static argument in reach bounds it (only the guards of single operations are in the shape of the code, see A25).')
na('N02', 'The surface stays within the Hausdorff distance of the input surface',
  'Every point of the output boundary is within the given distance of the input boundary and conversely.',
  ['inputs'], 'Every input surface and distance.', 'Tests do not measure distances.', ['src/mmgs', 'src/mmg3d'], [('geometric approximation control', 'MMG5_defsiz_iso and siblings')],
  'A bound on numerical results of the approximation scheme: no structural part of the code is a necessary condition that static analysis could decide.')
na('N03', 'Edge lengths and element quality reach their targets',
  'In the output mesh, edge lengths measured in the metric are close to one and element quality is not worse than that of the input unless constrained.',
  ['inputs'], 'Every input mesh and metric.', 'Tests do not evaluate quality.', ['src/mmg3d', 'src/mmgs', 'src/mmg2d'], [('remeshing loops', 'MMG5_adptet_delone, adptri')],
  'Convergence of heuristic floating-point loops; not a property of the shape of the code.')
na('N04', 'Metric interpolation, intersection and gradation give valid metrics',
  'Metrics computed by interpolation, intersection and gradation are symmetric positive definite and respect the minimal and maximal size and the gradation ratio.',
  ['inputs'], 'Every pair of metrics.', 'Tests sample a few metrics.', ['src/common/intmet.c', 'src/common/anisosiz.c', 'src/common/mettools.c'], [('metric algebra', 'MMG5_intersecmet33, MMG5_interpreg_ani')],
  'A numerical property of floating-point linear algebra for all inputs.')
na('N05', 'Level-set discretisation follows the zero isovalue',
  'The interface inserted for an implicit domain lies on the zero isovalue of the level-set and separates the materials by its sign.',
  ['inputs'], 'Every level-set function.', 'Tests run few level-sets and compare nothing.', ['src/mmg3d/mmg3d2.c', 'src/mmgs/mmgs2.c', 'src/mmg2d/mmg2d6.c'], [('level-set discretisation', 'MMG3D_mmg3d2')],
  'Numerical accuracy of computed intersections over all level-set values.')
na('N06', 'Values survive a save and load cycle without loss',
  'Coordinates and solution values written to a file and read back are the same numbers.',
  ['inputs'], 'Every floating-point value.', 'Tests do not compare reloaded values.', ['src/common/inout.c'], [('number formatting', 'saveMesh, saveSol')],
  'Round-trip equality of decimal conversions (%.15g does not even promise it); the structural part (layout, keywords) is A15.')
na('N07', 'Remeshing terminates in bounded time',
  'Every run ends after a bounded number of iterations.', ['inputs'], 'Every input.', 'Tests only see that they end.',
  ['src/mmg3d/mmg3d1.c', 'src/mmg3d/mmg3d1_delone.c', 'src/mmgs/mmgs1.c', 'src/mmg2d/mmg2d1.c'], [('iteration limits', 'maxit in adptet, adptri')],
  'Needs ranking arguments over mesh topology for walks through adjacency; the outer iteration caps alone would not decide it.')
na('N08', 'Any file content is rejected or read safely',
  'A truncated, inconsistent or malicious input file makes the loader fail cleanly without reading or writing outside its arrays.',
  ['inputs'], 'Every byte sequence.', 'Tests use well-formed files.', ['src/common/inout.c', 'src/mmg3d/inout_3d.c'], [('loaders', 'MMG3D_loadMesh_opened')],
  'The loaders do not validate vertex indices by design, so the property is known not to hold as stated, and bounding every index by analysis would need value reasoning about file contents.')

OPEN = {
 'A10': 'No check is claimed: what is charged and what is allocated are products of run-time counts built by different macros (MMG5_ADD_MEM before, the allocator after), and the renumbering charges counts that change between the two; equating them needs relations between run-time counts that the analyses here do not keep. Sampled comparisons would not be static analysis.',
 'A14': 'No check is claimed: of about 290 places where the 64-bit build narrows and the 32-bit build does not, most narrow local counts and list positions that are bounded by list capacities only at run time, so the analysis cannot tell a harmful narrowing from a harmless one without raising alarms on correct code.',
 'A15': 'No check is claimed: the order and number of fields written and read depend on run-time counts, versions and options in loops; matching writer and reader automata would need these relations. The parts that do not depend on them are decided by A11 (conversions), A12 (records), A16 (byte order) and A22.',
 'A21': 'No check is claimed: that everything attached was released depends on the history of calls that attached it (an array of solutions set twice, arrays given by the caller). A31 decides the other direction (nothing released is used or released again); A18 and A13 decide leaks of local arrays and on failure paths.',
 'A23': 'No check is claimed: several walks bound their list by an argument about the mesh (number of triangles around a point in a conforming mesh) or by a capacity the caller chose for the walk, which is not visible in the code of the walk.',
 'A24': 'No check is claimed: lengths of names flow through the mesh structure between interface calls, so capacities and lengths are related only by the history of calls.',
}
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, t, n, r in PROPS: f.write(json.dumps(d) + '\n')
    ready = [l.strip() for l in open(os.path.join(V, 'tool', 'ready.txt')) if l.strip()] if os.path.exists(os.path.join(V, 'tool', 'ready.txt')) else []
    checks = []; nas = []
    for d, t, n, r in PROPS:
        if r: nas.append(dict(property=d['id'], reason=r))
        elif d['id'] in ready:
            checks.append(dict(property=d['id'], quick_cmd='python3 tool/check.py %s' % d['id'], thorough_cmd='python3 tool/check.py %s' % d['id'],
                               technique='static analysis: ' + t, level='other', level_note=n))
        else: nas.append(dict(property=d['id'], reason=OPEN.get(d['id'], 'no check was built')))
    json.dump(dict(version=1, setup_cmd='python3 tool/setup.py', checks=checks, not_applicable=nas), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
