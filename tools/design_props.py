"""sections of DESIGN.md per property: (id, what is specified and enumerated, oracle, bounds, cost)."""
D = {}
D['F01'] = ('every operator of the abstract layer on every (pair of) root space(s) of (n,m) in five combinations, systematically, plus random programs up to 60 operations with interleaved registry requests',
            'FormAlgebra: the target space or refusal of each operator; identity of spaces; elementary forms; equality of meaning of two expressions vs equality of representations',
            'degrees/bundles as offered by the code; expression depth by program length', '≈ 60 s')
D['T01'] = ('constant and function sequences, instants by any spelling of a rational index, intervals, growth, in interleavings on two sequences',
            'exact rational arithmetic in TLC', 'indices with denominators ≤ 12; 60 requests per history', '≈ 40 s')
D['C01'] = ('set / read / interpolate / clean(time, all, -n) / auto-clean settings on several forms of msepy and msehtt', 'the store as a function', 'integer cochains, ≤ 40 requests', '≈ 50 s')
D['W01'] = ('derivation programs (integration by parts, split, rearrange, switch sign, delete/replace, mixing) over 7 systems', 'canonical form of the signed terms; TLC checks preservation on the design', 'programs ≤ 12 derivations', '≈ 60 s')
D['W02'] = ('temporal discretizations (differentiate, average over any instants) interleaved with derivations', 'terms with signs/factors', 'as W01', '≈ 70 s')
D['L01'] = ('whole pipelines pde → weak form → matrix proxy → linear system', 'blocks as sums of terms; natural boundary terms; rank of test forms', 'linear systems only; known-form products and nonlinear systems are not modelled', '≈ 60 s')
D['M01'] = ('1-, 2-, 3-d domains of several regions (incl. periodic, L, ring, backward step), layouts, element numbering, neighbours, corners, coordinate transformations, in random histories', 'exact lattice geometry', 'domains where a region side touches itself (SelfTouch) are left out in 3-d, since the code may refuse them', '≈ 50 s')
D['G01'] = ('gathering matrices of every space, orientation, degree (anisotropic), bundles and chains', 'identity of cells', 'degrees ≤ 4', '≈ 100 s')
D['I01'] = ('incidence matrices and coboundaries', 'signed incidence of lattice cells; d d = 0', 'as G01', '≈ 100 s')
D['A01'] = ('programs making, combining, customizing, assembling local matrices, vectors and systems, solving and writing back', 'exact integer linear algebra of sums over gathered places', 'small integers, gathering matrices with repeated numbers', '≈ 90 s')
D['B01'] = ('sections of region sides and of the rest, dofs on them, boundary integrals, systems with essential/natural conditions over any order of time steps', 'exact integers (linear fields)', '1-d sections and 3-d natural conditions are NotImplemented in the code', '≈ 110 s')
D['H01'] = ('meshes of triangles/quads/rects with any names, rotations, moved vertices, frames alike in angles or diagonals, scales 1 … 2^-17, by phm file, vtu cells, dictionaries, msepy meshes, saved meshes; ts, trf (several levels), renumbering', 'HttMesh: split rings in exact 1/2304 coordinates, conformity, area, boundary', 'grids ≤ 3 x 3; several trf levels are judged structurally (conforming, fills the domain), one level exactly', '≈ 80 s')
D['H02'] = ('all spaces of degree ≤ 3 over those meshes', 'cells of the complex; signs and values per global number', 'plane meshes', '≈ 45 s')
D['H03'] = ('incidence matrices and coboundaries over those meshes', 'signed incidence of the complex + commuting with the reduction of six polynomial fields', 'as H02', '≈ 40 s')
D['H04'] = ('sections by normals, lines, segments, polygons and complements; local and global dofs', 'exact integer geometry', 'geometric objects only on domains of ordinary scale (Point2 objects closer than 1e-3 are refused by the code)', '≈ 30 s')
D['H05'] = ('the sessions of H01–H04, H07 under 2, 3, 5, 9 processes (thorough 2–10)', 'the same specification over the union of the processes', 'oversubscribed single node', '≈ 110 s')
D['H07'] = ('mass matrices of all spaces over quads and rects in long histories (caches persist over sessions)', 'areas and first moments in exact integers', 'triangle mass matrices are NotImplemented in the code', '≈ 20 s')
D['R01'] = ('an iterator over several runs: memory, objects, cache file (temporary and final), processes that die at any point, also mid-write',
            'the fold of the solver over the inputs (uninterrupted execution), computed by the specification; file contents are inferred from the events only',
            'plans of <= 2 runs of <= 8 inputs in 7 styles (integers, negative, tenths, 1e-6 steps, numpy), up to 4 processes, 4 phases of death, caching each/sometimes/never, plain objects and msehtt forms, 1 and 2 processes',
            'quick 100-120 s')
D['D01'] = ('systems of generated formulations called at steps (msepy and msehtt): values of all coefficients, chains, instants, conditions on two sections, solution taken back',
            'AlgSystem + DynSystem prescribe every term of every block; the sums are evaluated from the public elementary matrices and cochains and compared with the assembled A and b',
            '9 configurations in 2-d and 3-d (periodic or two sections), <= 60 formulations each (thorough 400), 2-4 calls each in any order, degrees 1-2, straight and curved cells; formulations in which an essential condition and another row share a mass matrix are preferred (msehtt)',
            'quick 40-60 s')
D['N01'] = ('natural boundary terms over sections of lattice domains (boxes, arbitrary unions of cells, sheared frames, mixed rectangles and quadrilaterals with any starting vertex, 3-d boxes)',
            'exact integrals in 1/24 and 1/144 by Simpson\'s rule on every face; invariant Closed: both sections together equal the volume integral of the divergence',
            'up to 3x3 / 2x2x2 cells, degrees 1-3, polynomial fields linear in space and time, all polynomial test fields a form holds, np = 1, 2, 3; triangles and curved hexahedra are NotImplemented in the code',
            'quick 55 s')

D['V01'] = ('programs of operators over fields of 1-3 dimensions, with or without given derivatives, and fields of msepy and msehtt forms',
            'exact integer polynomials; invariants Complex (d d = 0), Adjoint, Rules (product rules)',
            'polynomials of small degree at lattice points, compared with the accuracy numerical differentiation has', 'quick 12 s')
D['Q01'] = ('forms over boxes with uneven cuts (msepy, msehtt, 2-d and 3-d) over sheared, rotated or stretched parallelograms and over triangles of them (msehtt, 2-d), over curved meshes (high degree, integrals compared within 0.25 %), fields, times and questions in any order',
            'exact integrals in 1/60^n; invariants Spaces, Psd',
            'degrees 1-3, fields of the space (complete polynomials off boxes); mass matrices of triangles are NotImplemented, so they have reconstructions and errors only; norms and residuals over orthogonal elements of msehtt only for fields of less than full degree along each axis, since their mass matrices are lumped by design (quadrature of the degree of the space); H1 errors within the accuracy of numerical differentiation; np = 1, 2', 'quick 50 s')
