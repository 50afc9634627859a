#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json, os
S='spatialops/structured/'
P=[]
def p(id,title,statement,over,qtext,tests,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,
           quantifier=dict(over=over,text=qtext),why_tests_cant=tests,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('W01','Window index maps are mutually inverse, in bounds and account for the offset',
  'For every memory window and every (i,j,k) inside it, the flat index lies inside the underlying memory block, distinct points have distinct flat indices, and converting to a flat index and back (through the global, windowed and windowless conversions) returns the same triplet. Flat indices follow the documented x-fastest order and include the window offset exactly once.',
  ['inputs'],'every global extent, sub-window extent and offset that fits in the block (per-dimension sizes up to the stated bit width) and every point of the window',
  'testMemWindow walks a few fixed windows; an index expression wrong only for unequal dimensions or non-zero offsets in one direction passes.',
  [S+'MemoryWindow.h',S+'MemoryWindow.cpp'],
  [('flat_index / ijk_index_from_local / ijk_index_from_global',S+'MemoryWindow.h'),('ijk_to_flat / flat_to_ijk',S+'MemoryWindow.h')],
  ['MemoryWindow::flat_index','MemoryWindow::ijk_index_from_local','MemoryWindow::ijk_index_from_global'])
p('W02','Splitting a window covers it exactly once with balanced pieces',
  'Splitting a window by any per-dimension split (no larger than its extent) yields pieces, each inside the original window, whose points together are exactly the points of the original window, none repeated. Along each dimension piece sizes differ by at most one, and every piece keeps the global extent of the original.',
  ['inputs'],'every window extent and offset, every split count 1..extent in each dimension, every piece',
  'Tests refine a couple of fixed windows and only with divisible sizes in most directions.',
  [S+'MemoryWindow.h'],[('MemoryWindow::refine','%sMemoryWindow.h'%S),('nebo_find_partition / nebo_partition_count','spatialops/NeboBasic.h')],
  ['MemoryWindow::refine'])
p('W03','Field iterators visit each window point once, in order, and move consistently',
  'Iterating a field (mutable or const, with-ghost, or interior) from begin to end visits exactly the points of the corresponding window once each in x-fastest order, and end-begin distance equals the number of points. Jumping by n, stepping n times, and stepping back are equivalent, and an iterator never refers to memory outside the field.',
  ['inputs'],'every window shape (including offset sub-windows with strides), every start position and every signed jump that stays in range',
  'testField uses fixed shapes and few jumps; carry logic across rows and planes for negative jumps or windows of extent one is not sampled.',
  [S+'SpatialField.h'],[('FieldIterator / ConstFieldIterator increment, decrement, +=, -=',S+'MemoryWindow.h')],
  ['SpatialField::begin','SpatialField::end','SpatialField::interior_begin','SpatialField::interior_end'])
p('W04','Ghost and boundary padding sizes windows consistently with the interior',
  'The window built for a field of a given interior size, ghost counts and physical-boundary flags has extent interior + low ghosts + high ghosts + one extra point only where that field type and flag call for it, and no padding is added along dimensions of extent one. The interior part of such a field is exactly the interior points (plus the extra boundary point), starting after the low ghosts.',
  ['inputs','configurations'],'every interior size, ghost count per face, boundary flag combination and every staggered field type',
  'Tests use one ghost count on all sides and a few field types, so asymmetric ghosts and mixed boundary flags are unsampled.',
  [S+'FVTools.h',S+'BoundaryCellInfo.h',S+'SpatialField.h',S+'GhostData.cpp'],
  [('get_window_with_ghost',S+'FVTools.h'),('BoundaryCellInfo::has_bc/has_extra/num_extra',S+'BoundaryCellInfo.h')],
  ['get_window_with_ghost','SpatialField::window_with_ghost','SpatialField::window_without_ghost'])
p('W05','Narrowing the valid ghost region keeps every remaining point addressed correctly',
  'After a field is restricted to fewer valid ghost points on any face, its window shrinks by exactly the dropped ghosts on that face, its interior stays at the same storage, and every remaining point keeps the value it had. Growing back within the allocated ghosts restores the original window.',
  ['inputs','histories'],'every allocated ghost configuration, every sequence of narrower ghost configurations, every interior size',
  'Tests only narrow ghosts implicitly and symmetrically through stencils.',
  [S+'SpatialField.h',S+'MemoryWindow.h'],[('SpatialField::reset_valid_ghosts',S+'SpatialField.h'),('MemoryWindow::reset_ghosts / remove_ghosts',S+'MemoryWindow.h')],
  ['SpatialField::reset_valid_ghosts','SpatialField::get_valid_ghost_data'])
p('G01','Ghost-count arithmetic is component-wise, sign-correct and respects infinity',
  'Combining ghost counts (sum, difference, minimum, comparison) acts independently on each of the six faces, the unlimited value absorbs finite additions and is the identity of minimum, and comparisons agree with the component values. The ghost loss for an access offset is charged to the face that the offset reaches beyond and to no other.',
  ['inputs'],'all six face counts of both operands, finite or unlimited, and all access offsets in a bounded range',
  'No existing test exercises asymmetric or unlimited ghost arithmetic directly.',
  [S+'GhostData.h',S+'GhostData.cpp'],[('GhostData operators, min, point_to_ghost',S+'GhostData.h')],
  ['GhostData::operator+','GhostData::operator-','min(GhostData,GhostData)','point_to_ghost'])
p('I01','Integer triplet and 3-vector algebra is component-wise and order independent',
  'Integer and real 3-vectors add, subtract, multiply, compare, and index component by component, in-place and out-of-place forms agree, and the compile-time index triplets agree with the run-time vectors for every operation offered on them.',
  ['inputs'],'all component values within the stated bit range; a fixed family of compile-time triplets',
  'Tests compare a few constants.',
  [S+'IntVec.h',S+'IndexTriplet.h',S+'Numeric3Vec.h'],[('IntVec operators',S+'IntVec.h'),('IndexTriplet Add/Subtract/Multiply/Negate/...',S+'IndexTriplet.h')],
  ['IntVec','IndexTriplet'])
p('M01','The memory pool never hands out a block that is in use or too small',
  'A block obtained from the pool stays exclusively the caller\'s until it is returned, always holds at least the requested number of values, and is never given to two holders at once; returned blocks may be reused. The pool\'s active and total counts match the blocks outstanding and owned.',
  ['histories','inputs'],'every sequence of get/put requests up to the stated length with symbolic sizes and symbolic choice of which block is returned',
  'memtest1 and memtest2 run fixed allocation patterns of equal sizes; interleavings of different sizes are not sampled.',
  [S+'MemoryPool.h',S+'MemoryPool.cpp'],[('Pool<T>::get / put',S+'MemoryPool.cpp')],
  ['Pool::get','Pool::put','Pool::active','Pool::total'],
  [('cpufqm_ / fieldSizeMap_','free queues per size; size of each owned block',S+'MemoryPool.h')])
p('M02','Work-field handles keep their field alive exactly as long as a handle remains',
  'For every sequence of copying, assigning (including to itself), detaching and destroying handles to a work field, the field stays usable and unshared with any newer work field while at least one handle refers to it, and its memory goes back for reuse exactly once after the last handle is gone. Using the handle operations never reads freed memory.',
  ['histories'],'every sequence of handle operations up to the stated length over a few handles',
  'Existing tests make and drop handles in straight-line scope order only.',
  [S+'SpatialFieldStore.h'],[('SpatFldPtr copy/assign/detach/destructor',S+'SpatialFieldStore.h'),('SpatialFieldStore::get / restore_field',S+'SpatialFieldStore.h')],
  ['SpatFldPtr','SpatialFieldStore::get'],[('count_','shared holder count',S+'SpatialFieldStore.h')])
p('M03','Work fields take the requested shape whatever field or window they are made from',
  'A work field requested from a prototype field or a window has the boundary information, ghost counts and interior size that the request implies for its own field type, even when the prototype is of another type, and is writable over its whole window without touching the prototype.',
  ['inputs','configurations'],'every prototype size, ghost counts and boundary flags; a family of source and destination field types',
  'Tests request same-typed work fields with full ghosts in one or two configurations.',
  [S+'SpatialFieldStore.h',S+'SpatialField.h'],[('SpatialFieldStore::get / get_from_window',S+'SpatialFieldStore.h')],
  ['SpatialFieldStore::get','SpatialFieldStore::get_from_window'])
p('M04','Concurrent requests for work fields never share or corrupt storage',
  'In a build with threads enabled, work fields requested, used and returned by several threads at once never share storage while more than one is held, are as large as requested, keep their values, and all memory is back in the pool once every handle is gone, for every interleaving of the threads.',
  ['schedules','histories'],'every interleaving at synchronisation points of a few threads that each request, copy, use and return work fields, up to the stated context-switch bound',
  'No test requests work fields from more than one thread.',
  [S+'SpatialFieldStore.h',S+'MemoryPool.cpp'],[('SpatialFieldStore::get_from_window / restore_field / get_mutex',S+'SpatialFieldStore.h'),('Pool::get / put',S+'MemoryPool.cpp')],
  ['SpatialFieldStore::get_from_window','SpatialFieldStore::get'])
p('F01','Field construction and copying share or own storage as requested',
  'A field built over caller storage reads and writes exactly that storage within its window and never frees it; a field with its own storage is independent of every other live field; a copy-constructed or window-restricted view aliases its parent\'s values point for point. Destroying fields in any order neither leaks, double frees nor invalidates other live fields.',
  ['inputs','histories'],'every window shape and storage mode, every order of construction and destruction of a small set of fields and views',
  'Tests construct and destroy in nesting order with one shape.',
  [S+'SpatialField.h'],[('SpatialField constructors/destructor',S+'SpatialField.h')],
  ['SpatialField'])
p('F02','Element access by index and by triplet reach the same, correct point',
  'Reading or writing a field through its flat index, through an (i,j,k) triplet, or through its iterators designates the same storage for the same point, for whole fields and for sub-window views, in both mutable and const forms, and changes no other point.',
  ['inputs'],'every window shape, offset and every in-range point',
  'Tests access whole fields with zero window offset.',
  [S+'SpatialField.h',S+'MemoryWindow.h'],[('SpatialField::operator() / operator[]',S+'SpatialField.h')],
  ['SpatialField::operator()','SpatialField::operator[]'])
p('N01','Field assignment evaluates the expression at each point and writes nothing else',
  'Assigning an expression of fields and scalars sets each point of the result\'s valid region to the scalar expression of the operand values at the same logical point, regardless of how each operand\'s ghost region or memory offset differs. Operands are unchanged and no value outside the result\'s window is written.',
  ['inputs','configurations'],'every interior size up to the bound, every ghost configuration and boundary flag per operand, all field values',
  'test_nebo compares a few constant-filled expressions on one grid with identical ghosts on every operand.',
  ['spatialops/NeboAssignment.h','spatialops/NeboLhs.h','spatialops/NeboRhs.h','spatialops/Nebo.h'],
  [('NeboField<Initial>::assign / sequential_assign','spatialops/NeboLhs.h'),('NeboConstField init','spatialops/NeboRhs.h')],
  ['operator<<='])
p('N02','Assignment writes exactly the region that the operands and the result support',
  'An assignment writes on each face as many ghost points as both the result\'s allocation and every operand (less what any stencil consumes) can supply, and storage outside that region keeps its old content. Interior-only assignment changes the interior points (with the extra point on a physical boundary) and nothing else. An assignment whose operands cannot supply the extra point of a result on a physical boundary is rejected with an exception and changes nothing.',
  ['inputs','configurations'],'all per-face ghost counts of result and operands; boundary flags; sizes up to the bound',
  'Ghost counts are equal on all faces in the tests; asymmetric counts are never used.',
  ['spatialops/NeboLhs.h','spatialops/NeboAssignment.h',S+'GhostData.h'],
  [('calculate_actual_ghost','spatialops/NeboBasic.h'),('NeboField<Initial>::assign','spatialops/NeboLhs.h')],
  ['operator<<=','interior_assign','SpatialField::get_valid_ghost_data'])
p('N03','Every arithmetic, function and comparison operator means its scalar namesake',
  'Each arithmetic operator, elementary function, min, max, comparison and logical operator offered on fields, with field, scalar, single-value or sub-expression operands in either position, yields at each point the result of the same scalar operation with operands in the written order and grouping.',
  ['inputs','programs'],'all operand values (including equal, signed zero and ordered both ways for comparisons); every operator and operand-kind combination',
  'test_nebo checks most operators at one pair of inputs, which cannot separate strict from non-strict comparison or swapped branches.',
  ['spatialops/NeboOperators.h'],[('operator structs and interface functions','spatialops/NeboOperators.h')],
  ['operator+ - * /','sin cos tan exp tanh abs pow sqrt log log10 erf erfc min max','== != < <= > >= && || !'])
p('N04','A conditional expression takes the first clause whose condition holds',
  'A conditional field expression with any number of clauses takes, independently at each point, the value of the first clause whose condition (boolean, comparison, mask, or combination) is true there, and the final value when none is.',
  ['inputs','programs'],'every truth pattern of the clause conditions at each point; clause values of every operand kind; all values',
  'Tests use conditions that are uniform or nearly uniform over the field.',
  ['spatialops/NeboCond.h'],[('CondBuilder reverse / NeboCond eval','spatialops/NeboCond.h')],['cond'])
p('N05','Masked assignment changes exactly the masked points',
  'Assigning through a mask sets each listed point to the value of the expression at that point and leaves every other point of the field unchanged, whatever the order of the listed points and the ghost layout of mask, target and operands.',
  ['inputs'],'every subset and order of points (interior and ghost) up to the bound; all ghost layouts; all values',
  'Tests mask a handful of fixed points on one layout.',
  ['spatialops/NeboAssignment.h','spatialops/NeboLhs.h','spatialops/NeboMask.h',S+'SpatialMask.h'],
  [('masked_assign','spatialops/NeboAssignment.h'),('SpatialMask points',S+'SpatialMask.h')],['masked_assign'])
p('N06','Thread-parallel assignment gives the sequential result for every thread count',
  'With thread-parallel execution enabled, an assignment (with or without stencils) leaves the result field in exactly the state the sequential assignment would, for every active thread count and every order in which the pieces run, and returns only after every piece has finished; pieces never write the same point or a point another piece reads.',
  ['schedules','inputs','configurations'],'every thread count up to the bound, every execution order of the pieces, every window shape up to the bound, all values',
  'The threaded build runs the same tests with four threads and whatever order occurs; small or thin windows where some pieces would be empty are not sampled.',
  ['spatialops/NeboLhs.h','spatialops/NeboBasic.h','spatialops/ThreadPool.cpp'],
  [('thread_parallel_assign / nebo_find_partition / nebo_next_partition','spatialops/NeboBasic.h')],['operator<<='])
p('N07','A single-value field broadcasts its one value to every point',
  'A field holding a single value, used in an expression over fields of any size and ghost layout, contributes that value at every point, never limits the result\'s valid ghosts and is never read out of bounds.',
  ['inputs'],'all values, target sizes and ghost layouts up to the bound; single-value operands with and without ghosts',
  'One shape is used in the tests.',
  ['spatialops/NeboRhs.h','spatialops/structured/FVStaggeredFieldTypes.h'],[('NeboSingleValueField','spatialops/NeboRhs.h')],['SingleValueField'])
p('R01','Whole-field reductions combine every valid point exactly once',
  'Sum, minimum, maximum, norm and general reductions of an expression combine the expression\'s value at every point of its valid region (valid ghosts included) exactly once starting from the given initial value or first element.',
  ['inputs','configurations'],'all sizes, ghost layouts and boundary flags up to the bound, all values',
  'Tests reduce fields whose extremum lies in a typical place of one grid.',
  ['spatialops/NeboReductions.h'],[('nebo_fold / nebo_reduce / nebo_max / nebo_min / nebo_sum / nebo_norm','spatialops/NeboReductions.h')],
  ['nebo_sum','nebo_max','nebo_min','nebo_norm'])
p('R02','Interior reductions combine exactly the interior points',
  'The interior forms of the reductions combine exactly the points that interior iteration and interior assignment address, including the extra point on a physical boundary, and no ghost point.',
  ['inputs','configurations'],'all sizes, ghost layouts and boundary flags up to the bound, all values',
  'Tests never reduce the interior of a field that has a physical-boundary extra point.',
  ['spatialops/NeboReductions.h','spatialops/NeboRhs.h'],[('nebo_*_interior','spatialops/NeboReductions.h')],
  ['nebo_sum_interior','nebo_max_interior','nebo_min_interior','nebo_norm_interior'])
p('S01','Two-point operators combine the two neighbouring source values at each location',
  'For every supported pair of staggered field types, the two-point interpolant, gradient and divergence give at each destination point the low coefficient times the neighbouring source value on the low side plus the high coefficient times the one on the high side, where low and high are determined by the physical staggering of the two types. The result is valid exactly where both source values are valid.',
  ['inputs','configurations'],'all field type pairs listed; all sizes, ghost layouts and boundary flags up to the bound; all coefficients and values',
  'Stencil tests check convergence or one hand-coded reference on one grid with equal ghosts.',
  ['spatialops/NeboStencils.h','spatialops/NeboStencilBuilder.h',S+'stencil/FVStaggeredOperatorTypes.h'],
  [('Stencil2Collection','spatialops/NeboStencilBuilder.h'),('EvalExpr / NeboStencil','spatialops/NeboStencils.h')],
  ['operator()(field)','apply_to_field'])
p('S02','Four-point interpolants combine the four corner neighbours at each location',
  'For every supported pair of field types staggered in two directions, the four-point interpolant gives at each destination point the coefficient-weighted combination of exactly the four surrounding source values, each with the coefficient of its corner, and the result is valid exactly where all four are valid.',
  ['inputs','configurations'],'all listed field type pairs; sizes, ghost layouts and flags up to the bound; all coefficients and values',
  'Existing test uses equal coefficients, which cannot tell corners apart.',
  ['spatialops/NeboStencilBuilder.h','spatialops/NeboStencils.h'],[('Stencil4Collection','spatialops/NeboStencilBuilder.h')],['operator()(field)'])
p('S03','Same-location finite differences and box filter use the documented neighbourhood',
  'The same-type interpolants and gradients along a direction combine the two neighbours one cell below and one cell above with their own coefficients, and the box filter averages exactly the 27 (or documented) surrounding points with equal weight, reading nothing else.',
  ['inputs','configurations'],'all volume field types and directions; sizes, ghost layouts and flags up to the bound; all values',
  'Filter is not built by default tests; finite differences are tested on one grid.',
  ['spatialops/NeboStencilBuilder.h','spatialops/NeboStencils.h'],[('FDStencilCollection','spatialops/NeboStencilBuilder.h'),('BoxFilter3DStencilCollection','spatialops/NeboStencilBuilder.h')],['operator()(field)'])
p('S04','Copying operators between coincident locations reproduce the source values',
  'The interpolants between field types whose points coincide reproduce, at each destination point, the source value of the coincident point with the same validity and leave everything else untouched.',
  ['inputs','configurations'],'all listed coincident pairs; sizes, ghost layouts and flags up to the bound; all values',
  'Only one pair on one grid is exercised.',
  ['spatialops/NeboStencilBuilder.h',S+'stencil/FVStaggeredOperatorTypes.h'],[('NullStencilCollection / NeboSumStencilBuilder','spatialops/NeboStencilBuilder.h')],['operator()(field)'])
p('S05','Nested and combined operator expressions equal their step-by-step evaluation',
  'An expression that applies operators to sub-expressions, or adds several operator results, gives at every valid point the same value as evaluating each step into a temporary field, and is valid wherever the step-by-step evaluation is.',
  ['inputs','programs'],'a family of nested expressions (divergence of flux times gradient, interpolated products, sums in three directions); sizes, ghosts and flags up to the bound; all values',
  'stencil chains are only timed or compared on one grid.',
  ['spatialops/NeboStencils.h','spatialops/NeboStencilBuilder.h'],[('NeboStencil construct recursion','spatialops/NeboStencils.h')],['operator()(expression)'])
p('S06','Operators built for a grid carry the coefficients of that grid spacing',
  'The operator database built for a grid returns interpolants weighting by one half (or one quarter), gradients and divergences with plus and minus the inverse of the spacing of their own direction (inverse of twice the spacing for the wide same-location gradients), for every registered operator type.',
  ['inputs','configurations'],'all grid lengths and point counts (symbolic reals and sizes), every registered operator type',
  'Tests use cubic or near-cubic grids where swapping two directions is invisible.',
  [S+'stencil/StencilBuilder.cpp',S+'Grid.cpp'],[('build_stencils',S+'stencil/StencilBuilder.cpp')],['build_stencils','OperatorDatabase::retrieve_operator'])
p('S07','Operator coefficients are reported in the order they were given',
  'A coefficient list of any supported length returns, for each position, the coefficient supplied for that position, and asking for a position outside the list is rejected with an exception.',
  ['inputs'],'all coefficient values and all positions, lengths up to the bound',
  'No test asks for a position outside the list.',
  ['spatialops/NeboStencils.h','spatialops/NeboBasic.h'],[('NeboStencilCoefCollection','spatialops/NeboStencils.h')],['NeboStencilCoefCollection::get_coef','build_coef_collection'])
p('B01','A mask is true at exactly its listed points',
  'A mask built from a list of points (duplicates and any order allowed) reads true at exactly those points and false elsewhere over its whole window including ghosts, through element access, iteration, copies and use in expressions alike.',
  ['inputs'],'every subset and order of points up to the bound; windows with asymmetric ghosts and boundary flags; bit positions across word boundaries',
  'testMask samples fixed lists on fields small enough to fit few words.',
  [S+'SpatialMask.h',S+'BitField.h','spatialops/NeboMask.h'],[('BitField find_position/set',S+'BitField.h'),('SpatialMask',S+'SpatialMask.h')],['SpatialMask::operator()','SpatialMask::begin'])
p('B02','Mask iterators walk the mask bits in step with field iterators',
  'Iterating a mask, with ghosts or interior only, visits the same logical points in the same order as iterating a field of the same window, returns each point\'s bit, and jumping by any amount equals stepping.',
  ['inputs'],'every window shape (with offsets), start and jump; all bit patterns',
  'Only sequential walks on one shape are tested.',
  [S+'BitField.h',S+'SpatialMask.h'],[('ConstMaskIterator',S+'BitField.h')],['SpatialMask::begin','SpatialMask::interior_begin'])
p('B03','Converting a mask between staggered types selects the adjacent points',
  'Using a mask of one field type on another staggered type on its low or high side selects exactly those points whose designated neighbour is set in the original mask.',
  ['inputs','configurations'],'all listed type pairs and sides; all bit patterns up to the bound',
  'One or two masks on one grid are tested.',
  ['spatialops/NeboStencils.h','spatialops/NeboStencilBuilder.h'],[('NeboMaskShiftBuilder / MaskShiftPoints','spatialops/NeboStencilBuilder.h')],['NeboMaskShiftBuilder'])
p('B04','Boundary operators make the operator return the prescribed boundary value',
  'After imposing a boundary value at listed points on the low or high side, applying the same interpolant or gradient to the modified field gives the prescribed value at each of these points, and no field value other than the targeted ghost (or boundary) values changed.',
  ['inputs','configurations'],'every set of boundary points, side, operator type, coefficient pair with non-zero target coefficient, and all values',
  'testNeboBC checks one grid with coefficients of equal magnitude.',
  ['spatialops/NeboStencilBuilder.h',S+'FVStaggeredBCTools.h',S+'stencil/FVStaggeredBCOp.h'],
  [('NeboBoundaryConditionBuilder','spatialops/NeboStencilBuilder.h'),('BoundaryConditionOp',S+'stencil/FVStaggeredBCOp.h')],['operator()(mask, field, value)','BoundaryConditionOp::operator()'])
p('B05','Direct boundary assignment sets exactly the designated points',
  'Imposing given values at a set of designated boundary points sets exactly those points of the field to those values, including values that change between applications, and leaves all others unchanged.',
  ['inputs','histories'],'every set of points and values up to the bound',
  'Only a single application on one field is sampled.',
  [S+'FVStaggeredBCTools.h'],[('BoundaryCondition / ConstValEval',S+'FVStaggeredBCTools.h')],['BoundaryCondition::operator()'])
p('D01','Grid coordinates are cell-centred, evenly spaced and consistently staggered',
  'For every grid, each volume field\'s coordinate along a direction at index i (counted from the interior) is (i + 1/2) spacings, shifted down by half a spacing along the direction that field type is staggered, for ghost and boundary-extra points alike; coordinates in other directions are unaffected and the spacing is length divided by count.',
  ['inputs','configurations'],'all lengths and counts, ghost layouts and boundary flags up to the bound; all staggered types and directions',
  'testGrid prints or samples a single grid.',
  [S+'Grid.h',S+'Grid.cpp'],[('Grid::set_coord / get_coord',S+'Grid.cpp')],['Grid::set_coord','Grid::spacing'])
p('D02','The operator database returns exactly the operators registered under each type',
  'Each registered operator is retrievable under its own type and returned identifier, never under another, until the database is emptied; an ambiguous or unknown request is rejected with an exception; every operator is destroyed exactly once.',
  ['histories'],'every sequence of registrations and retrievals up to the bound over several operator types, with symbolic identifiers',
  'Tests register one operator per type.',
  ['spatialops/OperatorDatabase.h'],[('OpStore::add/get','spatialops/OperatorDatabase.h')],['OperatorDatabase::retrieve_operator'])
p('L01','Lagrange interpolation reproduces polynomials up to its order',
  'For every strictly increasing set of points, every order of at least one and below the number of points, and every evaluation point, the interpolation coefficients use order+1 consecutive points inside the data, sum to one, and reproduce every polynomial up to the requested order; at a data point the tabulated value is returned.',
  ['inputs'],'all point positions and evaluation points as reals, point counts and orders up to the bound',
  'The test samples one smooth function with a tolerance.',
  [S+'onedim/LagrangePoly.cpp'],[('get_bounds / get_interp_coefs_indices',S+'onedim/LagrangePoly.cpp')],['LagrangeInterpolant::value','LagrangeCoefficients::get_interp_coefs_indices'])
p('L02','Lagrange differentiation is exact for polynomials up to its order',
  'For every strictly increasing set of points, every order of at least one and below the number of points, and every evaluation point, the derivative coefficients use order+1 consecutive points inside the data, sum to zero, and give the exact derivative of every polynomial up to the requested order.',
  ['inputs'],'all point positions and evaluation points as reals, point counts and orders up to the bound',
  'The test samples one smooth function with a tolerance.',
  [S+'onedim/LagrangePoly.cpp',S+'onedim/LagrangePoly.h'],[('get_derivative_coefs_indices',S+'onedim/LagrangePoly.cpp')],['LagrangeDerivative::value'])
p('P01','Particle-to-mesh transfer conserves the transferred quantity',
  'For every uniform mesh and every set of particles lying within it, transferring particle values to the mesh deposits in each cell the particle value times the fraction of the particle extent overlapping that cell, so that the mesh total equals the particle total.',
  ['inputs'],'all mesh origins and spacings, particle positions and sizes within the mesh, all values, counts up to the bound',
  'The test uses one mesh origin and a few particles.',
  ['spatialops/particles/ParticleOperators.h'],[('ParticleToCell::apply_to_field','spatialops/particles/ParticleOperators.h')],['ParticleToCell::apply_to_field'])
p('P02','Mesh-to-particle transfer is the overlap-weighted average of cell values',
  'For every uniform mesh and every particle lying within it, the value transferred to the particle is the average of cell values weighted by the fraction of the particle extent in each cell; a constant mesh field gives that constant.',
  ['inputs'],'all mesh origins and spacings, particle positions and sizes within the mesh, all values, counts up to the bound',
  'The test uses one mesh origin and a few particles.',
  ['spatialops/particles/ParticleOperators.h'],[('CellToParticle::apply_to_field','spatialops/particles/ParticleOperators.h')],['CellToParticle::apply_to_field'])
p('P03','Point extraction and insertion move exactly the selected values',
  'Extracting selected points of a field gives their values in index order, inserting writes exactly those points back and no others, and insert after extract is the identity, for every field whose window covers its memory block; selecting by a location field or by an index list is equivalent.',
  ['inputs'],'every selection and order of points up to the bound; all values',
  'Test uses one fixed selection.',
  ['spatialops/pointfield/PointOperators.h'],[('FieldToPoint / PointToField','spatialops/pointfield/PointOperators.h')],['FieldToPoint::apply_to_field','PointToField::apply_to_field'])
p('C01','Field comparison agrees with its documented point-wise tolerance test',
  'Each field comparison (exact, relative, absolute, ulp-wise; field with field or scalar with field) returns equal exactly when every point of the two windows meets the documented tolerance, its negated form returns the opposite, and fields of different window size are rejected with an exception.',
  ['inputs'],'all finite values, tolerances and small window shapes',
  'testFieldComparisons perturbs one point of a fixed field by a few magnitudes.',
  [S+'FieldComparisons.h'],[('field_equal / field_equal_abs / field_equal_ulp',S+'FieldComparisons.h')],['field_equal','field_not_equal','field_equal_abs','field_equal_ulp'])
p('C02','Function objects assign their documented function of the coordinate field',
  'The linear, sine, Gaussian and hyperbolic-tangent function objects set each point of the result to the documented function (and its derivative forms where offered) of the coordinate at that point.',
  ['inputs'],'all parameters, coordinates and small window shapes',
  'No committed test compares these objects against the formula.',
  ['spatialops/FieldFunctions.h'],[('evaluate / dx / d2x','spatialops/FieldFunctions.h')],['LinearFunction1D::evaluate','SinFunction::evaluate'])
p('T01','The thread pool runs every scheduled task exactly once in policy order',
  'Every task accepted by the pool is executed exactly once, with one worker in first-in first-out (or priority, or last-in first-out) order as the pool type promises, for every interleaving of scheduling and worker activity; waiting for the pool returns only after all tasks accepted before have finished.',
  ['schedules','histories'],'every interleaving at synchronisation points of a few tasks and workers up to the stated context-switch bound',
  'The tests run on whatever schedule happens; no ordering or lost wake-up is observable.',
  ['spatialops/threadpool/threadpool/detail/pool_core.hpp','spatialops/threadpool/threadpool/scheduling_policies.hpp'],
  [('schedule / execute_task / wait','spatialops/threadpool/threadpool/detail/pool_core.hpp')],['pool::schedule','pool::wait'])
p('T02','Resizing and shutting down the pool loses no task and no worker',
  'After any resize the pool reaches exactly the requested number of workers, still executes every accepted task, and never runs more tasks at once than the active limit; shutting down completes and joins all workers without deadlock on every schedule.',
  ['schedules','histories'],'every interleaving at synchronisation points of small resize/schedule/shutdown sequences up to the context-switch bound',
  'Tests resize between assignments and cannot see a worker lost by an unlucky interleaving.',
  ['spatialops/threadpool/threadpool/detail/pool_core.hpp','spatialops/ThreadPool.cpp'],
  [('resize / resize_active / terminate_all_workers','spatialops/threadpool/threadpool/detail/pool_core.hpp')],['pool::size_controller','ThreadPoolFIFO::set_pool_capacity'])
p('T03','The counting semaphore never lets a waiter through without a matching release',
  'For every interleaving of waiters and releasers, the number of completed waits never exceeds the initial count plus completed releases, and every waiter proceeds once enough releases occurred.',
  ['schedules'],'every interleaving of a few waiters and releasers at synchronisation points, spurious wake-ups included',
  'Only exercised indirectly.',
  ['spatialops/Semaphore.h'],[('Semaphore::post / wait','spatialops/Semaphore.h')],['Semaphore::wait','Semaphore::post'])
p('T04','Futures and looped tasks deliver exactly what the scheduled function does',
  'A future for a function scheduled on a pool gives every waiter the value the function returned, only after it returned; a function whose future was cancelled before any worker took it is never called, and cancelling a finished one is refused and changes nothing. A looped task is called until it first returns false and never again.',
  ['schedules'],'every interleaving at synchronisation points of a few workers, tasks and waiting threads up to the stated context-switch bound',
  'Futures and looped tasks are not tested at all.',
  ['spatialops/threadpool/threadpool/future.hpp','spatialops/threadpool/threadpool/detail/future.hpp','spatialops/threadpool/threadpool/task_adaptors.hpp'],
  [('future_impl / future_impl_task_func','spatialops/threadpool/threadpool/detail/future.hpp'),('looped_task_func','spatialops/threadpool/threadpool/task_adaptors.hpp')],['schedule','future::get','future::cancel'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
