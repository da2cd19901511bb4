P('F01', 'Abstract form algebra: operator results, refusals and names',
  'For every expression built from root forms with the operators of the abstract layer (exterior derivative, codifferential, '
  'Hodge, trace, time derivative, wedge, tensor, cross products, convection, sums, differences, scaling, projection, multi), '
  'the result lives in exactly the space (kind, degree, orientation, mesh level) the operator maps to, and an operator that is not defined on '
  'its operands is refused. No operand is changed, the elementary forms of a result are exactly the root forms it was built from, and the '
  'same space requested through any route is one and the same object; two expressions get the same linguistic representation '
  'only if they denote the same expression.',
  ['programs', 'histories'],
  'Every expression tree over every root space of every (n, m), built after every history of earlier requests.',
  'Tests build a handful of fixed expressions and mostly look at symbols; they cannot reach all operator/space combinations or the '
  'histories of the space registries on which identity depends.',
  ['src/form/operators.py', 'src/form/main.py', 'src/spaces/operators.py', 'src/spaces/main.py', 'src/spaces/base.py'],
  [('operator dispatch', 'src/spaces/operators.py'), ('form arithmetic', 'src/form/main.py'), ('space registry', 'src/spaces/main.py')],
  'TLC explores the algebra for (n,m) in {(1,1),(2,2),(3,3),(2,3),(1,2)}; systematic tables of every operator on every (pair of) root '
  'space(s) and random programs up to 60 operations are executed and decided by FormAlgebraTrace.')

P('T01', 'Time sequences: every instant and interval has one meaning that never changes',
  'An abstract time instant such as t[k+1/2] evaluated at a counter value is the instant the specific sequence assigns to that '
  'rational index - exactly t0 + k dt on the sub-instants of a constant sequence (with one step of margin), the k-th made step (linear '
  'between steps) for a function sequence - and an index outside the sequence or off its sub-instants is refused. A time once answered '
  'never changes, times increase with the index, intervals are the positive differences of their two instants (others are refused), '
  'the same name always gives the same object, and a sequence can be specified only once.',
  ['inputs', 'histories'],
  'All index expressions (any spelling of the same number), counter values, sequence parameters and interleavings of requests on several sequences.',
  'Tests evaluate a few hand-picked indices on one sequence; rounding of index expressions and the growth of function sequences depend on inputs and history.',
  ['src/time_sequence.py'],
  [('instants', 'src/time_sequence.py ConstantTimeSequence/FunctionTimeSequence.__getitem__'), ('intervals', 'src/time_sequence.py make_time_interval')],
  'TLC explores two sequences with growth, instants and an interval exhaustively; 500+ generated histories of 60 requests are executed and '
  'decided by TimeSeqTrace in exact rational arithmetic.')

P('C01', 'Cochain store: a form at a time is what was last set there, and cleaning keeps the newest',
  'In both finite-element back ends a form read at a time returns exactly the cochain last set at that time, setting or cleaning one form or '
  'time never disturbs any other, and reading a time that was never set (or was cleaned) is refused or - where interpolation is offered - gives '
  'the linear interpolation of the two neighbouring times. Cleaning removes exactly what was asked (a time, all, or all but the n newest), '
  'and automatic cleaning never removes any of the newest times it promises to keep.',
  ['histories', 'configurations'],
  'All histories of set / read / clean / auto-clean settings over all times, forms and both back ends.',
  'Tests set one or two times in order and read them back; out-of-order times, cleaning and long runs are not exercised.',
  ['msepy/form/cochain/main.py', 'msehtt/static/form/cochain/main.py'],
  [('store', 'msepy/form/cochain/main.py'), ('store', 'msehtt/static/form/cochain/main.py')],
  'The store as a map time -> value with cleaning; exhaustive for small constants, 900+ generated histories executed on msepy and msehtt and decided by CochainTrace.')

P('W01', 'Weak formulations: derivations give the stated terms and keep the meaning',
  'Testing a PDE gives, per equation and side, exactly its terms (with factors and signs) paired with the test form of that equation. Rearranging, '
  'switching signs, deleting, replacing, splitting, integration by parts (with or without the boundary term, none on a periodic domain), '
  'passing to duality and commuting a cross product change exactly the addressed term or equation in the stated way - so the equations stay '
  'equivalent - and refuse anything they do not apply to. The formulation derived from, its unknowns, test forms, boundary conditions and all '
  'other equations stay as they were, however many formulations are derived from it.',
  ['programs', 'histories'],
  'Every system of equations over a catalogue of terms and every tree of derivations of it.',
  'The tests follow three derivations of textbook problems and look at printed results; signs and positions depend on the side, position, '
  'number and form of the terms and on what was derived before.',
  ['src/pde.py', 'src/wf/main.py', 'src/wf/derive.py', 'src/wf/term/main.py', 'src/wf/term/ap.py'],
  [('testing', 'src/pde.py test_with'), ('derivations', 'src/wf/derive.py'), ('terms', 'src/wf/term/main.py')],
  'TLC checks that every derivation of small formulations preserves the canonical meaning; 1300+ random programs of derivations over 7 systems (2d/3d, '
  'mixed orientation, periodic, up to 13 terms) are executed and every resulting formulation is compared term by term by WeakFormTrace.')

P('W02', 'Temporal discretization replaces exactly the addressed terms by their finite differences',
  'Differentiating a term in time replaces it by the difference of its form at the two given instants over their interval, keeping sign, factor and '
  'test form, and averaging replaces the named form in the addressed term by the mean of its values at the given instants - nothing else '
  'changes, whatever the order of the requests and the derivations before and after. The result keeps test forms and boundary conditions and '
  'the formulation it is taken from stays as it was.',
  ['programs', 'histories'],
  'Every formulation over a catalogue of terms, every set of differentiations and averages with every choice of instants, interleaved with derivations.',
  'The tests use one scheme on a few formulations; which term a request hits depends on term positions, sides, factors and nesting.',
  ['src/wf/td.py', 'src/wf/derive.py', 'src/ode/main.py', 'src/ode/discretize.py'],
  [('temporal discretization', 'src/wf/td.py'), ('ODE of a term', 'src/ode/discretize.py')],
  'Random programs over 6 systems interleaving temporal discretizations with derivations are executed and every resulting term, sign and factor is decided by WeakFormTrace.')

P('L01', 'The linear system A x = b has every term in its block with its sign and factor',
  'A fully discrete weak formulation of the form A x = b turns into the abstract linear system in which every term is, once, in the block '
  'of its equation and its unknown (on the left) or in the entry of b of its equation (on the right), as the chain of mass, incidence, wedge or boundary '
  'arrays of its forms\' spaces and degrees, with its sign and factor; any other formulation is refused. An essential boundary condition is imposed on '
  'the row of the unknown it is given for, a natural one on the entry of b that holds its boundary term - whatever the names of the forms - and everything else is '
  'marked as manual. Assembling changes neither the formulation nor the outcome of assembling again.',
  ['programs', 'configurations'],
  'Every formulation reachable by deriving and discretizing systems over a catalogue of terms, all choices of conditions and degrees.',
  'The tests assemble a few textbook systems and look at printed pictures; sign, order and block of a term depend on side, order, factor and on which forms are unknown.',
  ['src/wf/ap/main.py', 'src/wf/mp/main.py', 'src/wf/mp/linear_system_bc.py', 'src/wf/term/ap.py', 'src/algebra/linear_system.py', 'src/algebra/array.py'],
  [('matrix proxy', 'src/wf/mp/main.py'), ('term proxies', 'src/wf/term/ap.py'), ('boundary conditions', 'src/wf/mp/linear_system_bc.py')],
  'AlgSystem extends WeakForm; 1900+ generated pipelines (integration by parts, time discretization, splitting, ordering) end in a system that TLC compares block by block.')

P('M01', 'msepy meshes: elements tile the domain and meet face to face',
  'The elements of a msepy mesh, numbered region by region, are exactly the boxes its per-region layouts cut the domain into: they cover it once, and '
  'every element side is shared with exactly one other element side (across a periodic boundary too) or lies on the domain boundary, as the element map, its '
  'opposites and the element and mesh coordinate transformations all agree. Corners, edges and sides get one number per geometric entity, whichever elements '
  'and however many of them meet there, with every position attached to it. All of it depends only on the domain and the layout, not on meshes made or questions asked before.',
  ['configurations', 'histories'],
  'Every domain (boxes, several regions, backward step, cylinder channel, periodic or curved), every per-region layout and every order of requests.',
  'The tests use a few square or cubic domains with one uniform layout; irregular vertices, unequal layouts, single elements across a period and caches keyed on earlier meshes need other configurations.',
  ['msepy/mesh/main.py', 'msepy/mesh/elements/main.py', 'msepy/mesh/topology', 'msepy/mesh/ct.py', 'msepy/manifold/predefined'],
  [('element map', 'msepy/mesh/elements/main.py'), ('corners, edges, sides', 'msepy/mesh/topology'), ('coordinates', 'msepy/mesh/elements/ct.py')],
  'TLC checks on every small domain that the model tiles and neighbours are mutual; random histories over 200+ domains (1/2/3-d) are asked of the code and decided by MsepyMeshTrace in exact integer geometry.')

P('G01', 'msepy degrees of freedom: one global number per geometric cell',
  'In a msepy space of k-forms of any (anisotropic) degree - or bundles of them - every element has one local degree of freedom per k-cell of its lattice, and two local degrees '
  'of freedom have the same global number exactly when they sit on the same cell of the mesh (periodic neighbours included); the global numbers are 0..N-1, all used. '
  'Matrices of several forms chained together give every number of every form one number of its own (by default one form after the other), and no answer depends on spaces, degrees or meshes asked before.',
  ['configurations', 'histories'],
  'Every domain and layout, form degree, orientation, polynomial degree per axis and order of requests.',
  'The tests use mostly equal degrees on one mesh; a wrong number at an irregular vertex, an anisotropic degree or a stale cache changes nothing they look at.',
  ['msepy/space/local_numbering', 'msepy/space/gathering_matrix', 'msepy/space/num_local_dofs', 'msepy/tools/gathering_matrix.py'],
  [('local numbering', 'msepy/space/local_numbering'), ('gathering matrix', 'msepy/space/gathering_matrix'), ('chained matrices', 'msepy/tools/gathering_matrix.py')],
  'TLC checks Euler characteristics of every small domain in the model; random histories of requests are asked of the code and dof identity is decided cell by cell by MsepyMeshTrace.')

P('I01', 'msepy incidence matrices are the exterior derivative on cells, with d(d(.)) = 0',
  'The incidence matrix of a msepy space maps the values on k-cells to the signed sum over the boundary of every (k+1)-cell of the element, '
  'with the signs of its orientation (outer 2-d 1-forms: the div; inner: the curl), for every polynomial degree per axis and every copy of a bundle. '
  'Entries are -1, 0 and 1, successive incidence matrices multiply to zero, and adjacent elements agree on the cells they share. '
  'The answer does not depend on degrees or spaces asked before.',
  ['configurations', 'histories'],
  'Every space, orientation, (anisotropic) degree and order of requests.',
  'Tests check convergence with equal degrees; a wrong sign or size for anisotropic degrees, bundles or after another request is not sampled.',
  ['msepy/space/incidence_matrix', 'msepy/form/coboundary.py'],
  [('incidence matrices', 'msepy/space/incidence_matrix')],
  'TLC proves d d = 0 on every small lattice of the model; every incidence matrix requested of the code in random histories is compared entry by entry with the geometric coboundary by MsepyMeshTrace.')

P('A01', 'Local matrices and vectors assemble to exactly their sums, blocks and customizations',
  'Assembling puts the sum of all local entries of a pair of global degrees of freedom into that place - also when an element has one of them twice - for matrices and vectors '
  'given in any way, combined by sums, products, factors, transposition and blocks. A customization (unit rows, zero rows, values, imposed degrees of freedom) changes exactly the rows and entries it '
  'addresses in the object it is applied to: nothing given by the user, no other object made before or after, and not what the object is locally. Solutions written back to the unknowns are the '
  'values of their degrees of freedom, and finding degrees of freedom finds all their places.',
  ['programs', 'histories'],
  'Every program that makes, combines, customizes, assembles and reads local matrices, vectors and linear systems over arbitrary gathering matrices.',
  'The tests assemble textbook systems where numbers are unique in an element, keys are unique and nothing is shared or customized twice.',
  ['msepy/tools/matrix', 'msepy/tools/vector', 'msepy/tools/gathering_matrix.py', 'msepy/tools/linear_system/static', 'tools/_ndarray_cache.py'],
  [('local matrices', 'msepy/tools/matrix/static'), ('local vectors', 'msepy/tools/vector/static'), ('local linear systems', 'msepy/tools/linear_system/static/local'), ('gathering', 'msepy/tools/gathering_matrix.py')],
  'LocalSystem explores every small program over small gathering matrices with TLC; 370+ random programs of 20-30 steps run on the real classes and every intermediate local and assembled value is decided by LocalSystemTrace.')

P('B01', 'Boundary sections partition the boundary and boundary conditions act exactly on them',
  'The section of a msepy boundary given by sides of regions and the section of the rest consist of exactly the element sides there, are disjoint and together all of the boundary; the degrees of freedom of a form on a section '
  'are exactly those on its sides. A boundary integral over a section adds up what every side contributes to a degree of freedom, and the linear system of a time step has, whatever steps were evaluated, solved or updated before, '
  'the essential values of that time in unit rows of exactly the degrees of freedom of their section, the natural data of that time in the entries of its section, and is otherwise the system without them.',
  ['configurations', 'histories'],
  'Every non-periodic domain, layout, choice of region sides, form, orientation and degree; every order of time steps, solutions and garbage collections.',
  'The tests impose one condition on all of the boundary of a square or run one time march; corners shared by two sides, several regions, anisotropic degrees and stale values of an earlier time need other inputs and histories.',
  ['msepy/mesh/boundary_section', 'msepy/manifold/boundary_section', 'msepy/space/find/local_dofs.py', 'msepy/form/boundary_integrate', 'msepy/tools/linear_system/dynamic'],
  [('boundary sections', 'msepy/mesh/boundary_section'), ('dofs on a side', 'msepy/space/find/local_dofs.py'), ('boundary integrals', 'msepy/form/boundary_integrate'), ('conditions of linear systems', 'msepy/tools/linear_system/dynamic/bc.py')],
  'MsepyBoundary and BoundarySystem (extending the mesh specification) give sides, degrees of freedom, linear boundary integrals and imposed values in exact integers; 120 + 30 random histories over 2-d and 3-d domains are decided by their trace specifications.')

P('H01', 'msehtt meshes are conforming meshes of the given domain however they are made',
  'A plane msehtt mesh given by elements and vertices (file, vtu cells, dictionaries, a msepy mesh, a saved mesh) consists of exactly those elements, or of exactly the pieces they split into '
  'when elements are split (ts) or refined by thresholds (trf); renumbering changes names only. The outcome is conforming: every inner edge has two elements on opposite sides, no vertex hangs, '
  'positions and names of vertices correspond one to one, no element is turned over, and the pieces fill the domain with its boundary and nothing else.',
  ['configurations'],
  'Every mesh of triangles, quadrilaterals and rectangles with any names, order, orientation start, scale and shape of elements; every combination of splitting, refinement, renumbering and saving.',
  'The tests configure a few fixed meshes; mixed elements, arbitrary names and rotations, several refinement levels and tiny domains are never combined.',
  ['msehtt/static/mesh/great/main.py', 'msehtt/static/mesh/great/config'],
  [('configuration', 'msehtt/static/mesh/great/main.py'), ('refinement', 'msehtt/static/mesh/great/config/msehtt_trf.py'), ('element types', 'msehtt/static/mesh/great/elements/types')],
  'HttMesh states the complex, the splits and their refinement laws; TLC checks them on every mesh of grids up to 2 x 2; random meshes are configured in the code by five routes and judged by HttMeshTrace.')

P('H02', 'msehtt degrees of freedom are numbered per cell, once and consistently',
  'The global numbers of the degrees of freedom of a space over a msehtt mesh are consecutive from 0, every vertex, edge part and inner part of the mesh has exactly one, and any two elements that '
  'share one see it at the same place, in the same direction and with the same value of any field. Hence a cochain is a single-valued object on every mesh of mixed elements.',
  ['configurations'],
  'Every mesh as in H01, every form degree, orientation and polynomial degree.',
  'The tests look at convergence on particular meshes; a wrong sign on some shared edge of a mixed mesh is only seen on meshes with that pair of elements in that rotation.',
  ['msehtt/static/space/gathering_matrix', 'msehtt/static/mesh/great/elements/main.py', 'msehtt/static/space/reduce'],
  [('numbering', 'msehtt/static/space/gathering_matrix'), ('face orientation', 'msehtt/static/mesh/great/elements/main.py'), ('reduction', 'msehtt/static/space/reduce')],
  'The cell complex of HttMesh (Euler characteristic checked by TLC for every degree) decides recorded tables: local degrees of freedom are identified by what they measure, then numbers, signs and values are compared.')

P('H03', 'msehtt exterior derivatives are the incidence of the cell complex',
  'The incidence matrix of a space over a msehtt mesh consists of 1 and -1 only: a 1-cell is the difference of its two end points and a 2-cell the circulation around it, '
  'in the very directions the degrees of freedom have there. Derivative and reduction commute for every polynomial field, and the coboundary of a form is that derivative of its cochain, whatever was asked before.',
  ['configurations', 'histories'],
  'Every mesh as in H01, every form degree, orientation and polynomial degree, in any order of requests and sessions.',
  'Convergence tests use few element types; sign errors on faces whose direction was reversed, or matrices of another space from a cache, depend on the mesh and on the history.',
  ['msehtt/static/space/incidence_matrix', 'msehtt/static/form'],
  [('incidence matrices', 'msehtt/static/space/incidence_matrix'), ('coboundary', 'msehtt/static/form')],
  'HttMeshTrace judges every entry of the recorded incidence matrices against the cell complex of HttMesh, and the commuting of derivative and reduction on six fields per request.')

P('H04', 'msehtt boundary sections are the edges described and own exactly their degrees of freedom',
  'A boundary section of a msehtt mesh given by outward normals, lines, segments, polygons or their complement consists of exactly the outer edges described - with none twice - and the whole boundary of all outer edges. '
  'The degrees of freedom found on a section, local or global, are exactly those on its edges, each once and alike on all processes.',
  ['configurations'],
  'Every mesh as in H01, every section, form degree, orientation and polynomial degree.',
  'Tests impose conditions on all of a boundary or on one side of a square; sections of split and mixed meshes, complements and edges shared by two descriptions are not sampled.',
  ['msehtt/static/mesh/partial', 'msehtt/static/mesh/great/elements/types'],
  [('sections', 'msehtt/static/mesh/partial/main.py'), ('degrees of freedom on a section', 'msehtt/static/mesh/partial/boundary_section')],
  'SectionEdges of HttMesh decides in exact integer geometry which edges belong to a section; faces and degrees of freedom found by the code are compared by HttMeshTrace.')

P('H05', 'msehtt results do not depend on the number of processes',
  'Under any number of processes that does not exceed the elements, every element lives on exactly one process, no process is without elements, and everything promised of one process - mesh, numbers, derivative, '
  'sections, inner products - holds of the union of what the processes have. The processes agree on everything global.',
  ['configurations', 'schedules'],
  'Every mesh as in H01, every number of processes, request and session history.',
  'The tests run on one process only.',
  ['msehtt/static/mesh/great/main.py', 'msehtt/static/space', 'tools/frozen.py'],
  [('distribution', 'msehtt/static/mesh/great/main.py'), ('collective numbering', 'msehtt/static/space/gathering_matrix')],
  'The same specification judges sessions recorded under mpirun with 2, 3, 5 and 9 (thorough: 2 to 10) processes, gathered over the processes.')

P('H07', 'msehtt inner products are those of the elements they belong to',
  'The mass matrix of a space over an element of a msehtt mesh is symmetric and positive definite, and the inner product of constant (and linear) fields by it is the integral over that very element. '
  'It never is the matrix of another element, space, degree, mesh or session that looks alike.',
  ['configurations', 'histories'],
  'Every mesh of quadrilaterals and rectangles of any shape and scale, every space and degree, in any history of sessions.',
  'Matrices are shared between elements of equal metric and between requests: elements whose angles or sizes agree after rounding, and objects of an earlier session, do not occur in the tests.',
  ['msehtt/static/space/mass_matrix', 'msehtt/static/mesh/great/elements/types'],
  [('mass matrices', 'msehtt/static/space/mass_matrix'), ('metric signatures', 'msehtt/static/mesh/great/elements/types')],
  'Exact areas and first moments by HttMesh (in 1/2304) decide inner products recorded from the code in random histories over meshes of many shapes and scales, including families alike in angles and diagonals.')

P('R01', 'Interrupted iterations resume to the results of uninterrupted ones',
  'A process that runs an iterator over some inputs, after any number of earlier processes that ran it over the same inputs (or a beginning of them) with the same cache file and died anywhere, reports the results of an uninterrupted execution (results table, its .csv file, exit code) and ends with the cached objects in the state of one. '
  'Inputs cached before the death are not computed again, the next one is computed from the state its predecessors lead to, and death while the cache is written leaves the previous cache. '
  'The cache is made when the caching time has passed, holds all results and the present state of all objects (also msehtt forms, also on several processes), and is never lost.',
  ['crash points', 'histories', 'sequences of inputs'],
  'Every sequence of inputs (integers, floats, repeated, unsorted, in several runs), every point of death and every number of deaths.',
  'A test would have to kill processes at chosen points, also in the middle of a write, and to compare whole executions; the iterator has no test.',
  ['tools/iterator/main.py', 'tools/iterator/cache_reader.py', 'msehtt/static/form/main.py'],
  [('iterator, cache file', 'tools/iterator/main.py'), ('state of forms', 'msehtt/static/form/main.py:_make_cache_data, _read_cache_data')],
  'Iterator explores deaths at every point (also between writing and replacing the file); generated histories are executed by real processes (forked, killed in the solver, in collection, in pickling, or by a file size limit) and every recorded event is decided.')

P('D01', 'The linear system called at a step is the one its formulation prescribes',
  'Whatever was called, assembled or solved before, the system called at a step (or time) is A x = b where every block is the sum of the formulation\'s terms - signs, constants, time step, chains of matrices, forms at the instants their terms name - '
  'natural conditions add up over the sections they are given on, and an essential condition takes exactly the rows of its unknown on its section, in this system only. '
  'Its solution becomes the unknowns at the time of the step.',
  ['programs', 'histories', 'configurations'],
  'Every formulation the library can implement, every constant, time sequence, step, mesh, degree, boundary partition and order of calls, with msepy and msehtt.',
  'The tests run four formulations, mostly with one kind of condition; a wrong coefficient, instant, row or a condition that leaks into another term shows for particular combinations only.',
  ['msepy/tools/linear_system', 'msehtt/tools/linear_system', 'msehtt/static/implementation_array_parser.py'],
  [('msepy dynamic linear systems', 'msepy/tools/linear_system/dynamic'), ('msehtt dynamic and static linear systems', 'msehtt/tools/linear_system'),
   ('terms to matrices', 'msehtt/static/implementation_array_parser.py')],
  'DynSystem gives the symbolic system of AlgSystem values and conditions; generated formulations are implemented in both back ends, called at steps in any order, assembled and compared with the prescribed sums of the elementary matrices.')

P('N01', 'Natural boundary terms of msehtt are those integration by parts leaves',
  'For a form v and a field u, < tr * u | tr v > over a section of the boundary is the exact flux integral over exactly the faces of the section, with the sign for which (cd u, v) = (u, d v) - < tr * u | tr v > holds: it adds up over sections and over the faces a cell has in a section (corners, edges), on any number of processes, and reaches no other cell.',
  ['configurations', 'schedules'],
  'Every domain made of rectangles, quadrilaterals or hexahedra the library integrates over, every partition into sections, form, degree, field and time.',
  'No test uses natural conditions of msehtt; an overwritten corner, a sign or a lost face only shows for particular forms, sections and elements.',
  ['msehtt/static/form/bi', 'msehtt/static/mesh/partial/boundary_section'],
  [('boundary integrals', 'msehtt/static/form/bi/vc/Lambda'), ('boundary sections', 'msehtt/static/mesh/partial/boundary_section')],
  'NatInt computes the integrals exactly on lattice domains under integer frames (TLC checks that the sections together close the integration by parts) and decides those recorded from the code, cell by cell, on 1, 2 and 3 processes.')

P('V01', 'Fields obey vector calculus, and forms of fields the de Rham complex',
  'Scalars, vectors and tensors of space and time stand for functions: sums, products, dot, cross and tensor products, gradient, curl, rot, divergence, Laplacian, convection, time derivatives and integrals, however they are nested and whichever derivatives were given, have the values vector calculus prescribes at every point and time. The exterior derivative, codifferential and time derivative of the field of a form are those of its space and orientation.',
  ['inputs', 'histories'],
  'Every field, every nesting of operators and every point: tests sample a few fields in one dimension.',
  'A wrong component or sign in one operator of one dimension, or a given derivative taken for another one, shows only for particular fields.',
  ['tools/functions/time_space', 'msepy/form/cf.py', 'msehtt/static/form/cf.py'],
  [('fields', 'tools/functions/time_space'), ('fields of forms', 'msepy/form/cf.py'), ('fields of forms (msehtt)', 'msehtt/static/form/cf.py')],
  'VecCalc is the calculus of polynomial fields with exact integer coefficients (TLC checks d d = 0, the adjointness of d and the codifferential and the product rules); programs of operators are generated, run on real fields and compared at lattice points.')

P('Q01', 'Forms stand exactly for the polynomial fields of their spaces',
  'A field in the space of a form is reduced without loss on any affine mesh: reconstruction gives its values in every cell, and norms (also by component), errors in L2 and H1, inner products, mass, and the same of derivatives, sums and differences of forms, equal the exact integrals, on curved meshes up to the small error of resolved fields. Cochains of different times do not affect each other and residuals are between the times they name, by default the last two.',
  ['inputs', 'histories', 'schedules'],
  'Every space, orientation, degree, affine mesh, field and order of time steps, on any number of processes.',
  'Tests look at convergence on fixed meshes; a wrong metric term or quadrature on stretched or sheared cells, or a wrong time, still converges or is not looked at.',
  ['msepy/space', 'msepy/form', 'msehtt/static/space', 'msehtt/static/form'],
  [('msepy spaces', 'msepy/space'), ('msehtt spaces', 'msehtt/static/space'), ('forms', 'msehtt/static/form/main.py')],
  'FormCalc (on VecCalc) integrates polynomial fields exactly over lattice meshes under integer frames (TLC checks that derivatives stay in the next space and that norms are definite) and decides what real forms tell, in histories of fields, times and questions, on 1 and 2 processes.')
