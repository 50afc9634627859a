# Property -> list of harness runs. quick/thorough: vp_cfg values (plus time/preempt).
NOTES={}
NA={}
UNITS={}
def unit(prop,h,name,defs=(),quick=None,thorough=None,reach=('end',),**k):
    d=dict(h=h,name=name,defs=list(defs),quick=quick or {},reach=list(reach),**k)
    d['thorough']=thorough if thorough is not None else dict(d['quick'])
    UNITS.setdefault(prop,[]).append(d)
def kinds(prop,h,ks,**k):
    for n,(q,t,b) in ks.items(): unit(prop,h,n.lower(),['U_'+n],quick=q,thorough=t,bounds=b,**k)
BASE_S=['structured/MemoryPool.cpp','structured/Grid.cpp','structured/MemoryWindow.cpp','structured/GhostData.cpp']
NOSRC=['structured/MemoryWindow.cpp','structured/GhostData.cpp']
kinds('W01','w01.cpp',{
 'GLOBAL':(dict(n=3,big=7),dict(n=3,big=20),'block sizes 1..n in two dimensions and 1..big in the third; offset, extent and point symbolic'),
 'DISTINCT':(dict(n=3,big=7),dict(n=3,big=20),'as GLOBAL, two symbolic points'),
 'LOCAL':(dict(n=2,big=6),dict(n=3,big=12),'window sizes as GLOBAL, offset 0 or 1 per dimension, flat index symbolic')},src=NOSRC)
kinds('W02','w02.cpp',{
 'REFINE':(dict(E=40,S=5),dict(E=200,S=9),'extents, offsets up to E symbolic; split of one dimension 1..S, of the others 1..2; piece symbolic'),
 'PARTITION':(dict(E=40,S=6),dict(E=500,S=16),'extents up to E symbolic; thread counts 1..S'),
 'WALK':(dict(W=3),dict(W=4),'splits 1..W per dimension')},src=NOSRC)
kinds('G01','g01.cpp',{
 'FINITE':(dict(M=4000),None,'face counts 0..M symbolic, both operands'),
 'INF':(dict(M=4000),None,'one unlimited operand, face counts 0..M symbolic'),
 'POINT':({},None,'offsets -100..100 symbolic')},src=NOSRC)
kinds('I01','i01.cpp',{
 'INT':(dict(M=20000),None,'all six components and the scalar symbolic in -M..M'),
 'DIV':(dict(D=3),dict(D=5),'dividends symbolic -1000..1000, divisors 1..D'),
 'REAL':({},None,'all components symbolic reals'),
 'TRIPLET':({},None,'fixed compile-time triplets')},src=NOSRC)
kinds('W03','w03.cpp',{
 'WALK':(dict(n=3),dict(n=4),'block sizes and window extents 1..n per dimension, offset symbolic; full forward and backward walks'),
 'JUMP':(dict(n=3,slim=1),dict(n=3),'as WALK (slim: n-1 in two dimensions); start and signed jump symbolic'),
 'INTERIOR':(dict(n=3,slim=1),dict(n=4),'as WALK with ghosts 0/1 per face; symbolic jump into the interior')})
unit('W04','w04.cpp','pad',quick=dict(M=1000),bounds='16 staggered types; interior sizes 1..M, ghosts 0..20 per face and boundary flags symbolic')
kinds('W05','w05.cpp',{
 'SYM':(dict(M=1000,steps=2),dict(M=1000,steps=4),'interior 2..M, allocated and valid ghosts 0..9 per face symbolic; histories of `steps` resets'),
 'VALUES':(dict(N=2,G=1),dict(N=3,G=1),'interior 2..N, ghosts 0..1, all values symbolic'),
 'VIEW':(dict(G=1),dict(G=1),'2x3x2 interior, ghosts 0..1, shifts in range, all values symbolic')})
unit('F02','f02.cpp','access',quick=dict(n=2),thorough=dict(n=3),bounds='block sizes, extents 1..n, all offsets; read point symbolic, written point chosen; all values symbolic')
unit('N01','n01.cpp','expr',quick=dict(nlo=2,N=2,G=1),thorough=dict(nlo=1,N=3,G=1),reach=['end','rejected'],bounds='focus direction: interior nlo..N, ghosts 0..G and boundary flag per field; other directions 1 or 2 points with asymmetric ghosts; block padding; all values symbolic')
unit('N01','n01.cpp','kinds',quick=dict(nlo=1,N=2,G=1,kind=1),thorough=dict(nlo=1,N=2,G=2,kind=1,time=700),reach=['end'],bounds='as expr for five right-hand sides, among them the result itself')
N02B='focus direction: interior nlo..N, ghosts 0..G per face and boundary flag for result and two operands; other directions fixed asymmetric ghosts; block padding; all values symbolic'
unit('N02','n01.cpp','faces',quick=dict(nlo=2,N=2,G=2,types=2,thin=2),thorough=dict(nlo=2,N=3,G=2),reach=['end','rejected'],bounds=N02B)
unit('N02','n01.cpp','interior',quick=dict(nlo=1,N=2,G=1,interior=1,thin=2),thorough=dict(nlo=1,N=3,G=2,interior=1),reach=['end','rejected'],bounds=N02B)
BIGB='eight larger windows (up to 70 points along a direction and 80 in the interior), three ghost and padding layouts with different ghosts on every face, all boundary flags on or off; all values symbolic'
unit('N01','n01.cpp','large',quick=dict(big=1),bounds=BIGB)
unit('N02','n01.cpp','narrowed',quick=dict(nlo=2,N=2,G=1,types=1,thin=1,narrow=1),thorough=dict(nlo=1,N=3,G=2,thin=2,narrow=1),reach=['end','rejected'],bounds='as faces, with result or first operand restricted to fewer valid ghosts')
N03B='every operand-kind overload of the listed operators (field, scalar, sub-expression, single value and single-value expression on each side); all values symbolic'
kinds('N03','n03.cpp',{n:({},dict(big=1),N03B) for n in ('ARITH','MINMAX','CMP1','CMP2','UNARY')})
N04B='every combination of test kind (bool, comparison, mask) and value kind (scalar, field, expression) for up to two clauses with every kind of final value; selected chains up to five clauses; every logical operator overload; all mask subsets of two points; all values symbolic'
kinds('N04','n04.cpp',{n:({},dict(big=1),N04B) for n in ('ONE','TWO0','TWO1','TWO2','LONG','LOGIC')})
unit('N05','n05.cpp','mask',quick=dict(N=2,G=1,P=1),thorough=dict(N=3,G=1,P=2),bounds='focus direction: interior 1..N, ghosts 0..G and boundary flag for result and mask; 0..P listed points with symbolic coordinates; all values symbolic')
unit('N05','n05.cpp','pair',quick=dict(nlo=3,N=3,G=0,P=2,other=1),thorough=dict(nlo=2,N=3,G=1,P=3,other=1),bounds='as mask, up to P points')
unit('N07','n07.cpp','single',quick=dict(N=2,G=1),thorough=dict(N=2,G=2),bounds='interior 1..N in the focus direction, ghosts 0..G and boundary flags of result and operand; seven right-hand sides, four single-value assignments; all values symbolic')
kinds('R01','r01.cpp',{n:({},{},N03B+'; two-point sums') for n in ('ARITH','MINMAX','CMP1','CMP2','UNARY')})
unit('R01','r02.cpp','region',quick=dict(N=2,G=1),thorough=dict(N=2,G=2,other=2,time=700),bounds='interior 1..N in the focus direction, ghosts 0..G, flags, one field or a two-field expression, eight reductions; all values symbolic')
unit('R02','r02.cpp','interior',quick=dict(N=2,G=1,interior=1),thorough=dict(N=3,G=1,interior=1,other=2,time=700),bounds='interior 1..N in the focus direction, ghosts 0..G, flags, one field or a two-field expression, eight reductions; all values symbolic')
SB='source/result layouts: directions the operator works along have 2..N interior points, source ghosts 0..G per face, result ghosts G on one face, shared boundary flag; other directions 1..2 points; block padding; coefficients and all values symbolic'
kinds('S01','s01.cpp',{n:(dict(N=2,G=1,forms=3),dict(N=3,G=2,forms=3),SB) for n in ('SVOL','XVOL','YVOL','ZVOL','CROSS')})
kinds('S02','s02.cpp',{n:(dict(N=2,G=1,forms=3),dict(N=3,G=2,forms=3),SB) for n in ('TOEDGE','FROMEDGE','VOLS')})
kinds('S03','s03.cpp',{'WIDE':(dict(N=3,G=1,forms=3),dict(N=3,G=2,forms=3),SB)})
kinds('S03','s03.cpp',{'BOX':(dict(N=3,G=1,forms=3),dict(N=3,G=2,forms=3),SB)})
unit('S04','s04.cpp','copy',quick=dict(N=2,G=1,forms=3),thorough=dict(N=3,G=2,forms=3),bounds=SB)
S5B='SVol sources with chosen low/high ghosts 0..G in x and boundary flag; interior 2..N in x, 2 elsewhere; symbolic coefficients and values'
kinds('S05','s05.cpp',{'NEST':(dict(N=2,G=3),dict(N=3,G=4),S5B+'; five nested expressions up to four operators deep')})
kinds('S05','s05.cpp',{'COMB':(dict(N=2,G=2),dict(N=3,G=3),S5B+'; three products and sums of operator results')})
kinds('S05','s05.cpp',{'COND':(dict(N=2,G=2),dict(N=4,G=2),S5B+'; conditional over operator results, one direction')})
kinds('S05','s05.cpp',{'FOUR':(dict(N=2,G=2),dict(N=3,G=2),S5B+'; four-point over two-point, box filter of a difference')})
unit('S06','s06.cpp','grid',quick=dict(M=3),thorough=dict(M=8),src=BASE_S+['structured/stencil/StencilBuilder.cpp'],bounds='point counts 1..M per direction, lengths symbolic in 0.001..1000; every registered operator type')
unit('S07','s07.cpp','coefs',bounds='lengths 1..6 and both builder functions, symbolic values, index symbolic from -4 to length+4')
B1B='four window shapes (up to 48 points in one to three dimensions, ghosts, extra points, block padding; more than one storage word); 0..P listed points with symbolic coordinates, duplicates'
kinds('B01','b01.cpp',{n:(dict(P=2),dict(P=3,big=2),B1B) for n in ('ACCESS','ITER','VIEW')})
kinds('B02','b02.cpp',{'WALK':({},dict(big=3),B1B+'; complete walks in both directions')})
kinds('B02','b02.cpp',{'JUMP':({},dict(all=1,time=800),B1B+'; six starts at line, plane and window ends (thorough: every start), symbolic target, four jump forms')})
kinds('B03','b03.cpp',{n:(dict(N=2,G=1,P=1),dict(N=3,G=2,P=2),'minus and plus side; 2..N points along the staggered direction, mask ghosts 0..G per face, boundary flag; 1..P mask points with symbolic coordinates; values symbolic') for n in ('VOLFACE','CROSS')})
B4B='one direction 2..N points with source ghosts 0..G per face and boundary flag; every destination point with both neighbours present; coefficients (targeted one in 0.25..4), value and field symbolic'
kinds('B04','b04.cpp',{'POINT':(dict(N=2,G=1),dict(N=4,G=2),B4B+'; ten operators, MINUS, PLUS and NO side'),'LIST':(dict(N=2,G=1),dict(N=4,G=2),B4B+'; seven operators, one or two listed points'),'NEBO':(dict(N=2,G=1),dict(N=3,G=2),B4B+'; four type pairs, both sides, field, scalar and expression values, one or two mask points')})
unit('B05','b05.cpp','direct',quick={},thorough=dict(big=2),bounds='four window shapes with ghosts and extra points; single point or list of 0..2 points; values from a constant or a source that changes at each evaluation; all values symbolic')
M01B='every history of K get/put requests on a fresh pool, sizes 1..M symbolic, any outstanding block returned'
kinds('M01','m01.cpp',{'DOUBLE':(dict(K=5,M=400),dict(K=7,M=900,time=800),M01B),'OTHER':(dict(K=4,M=400),dict(K=6,M=900,time=800),M01B+'; float and unsigned pools')},src=['structured/MemoryPool.cpp'])
unit('M02','m02.cpp','handles',quick=dict(K=4,H=3),thorough=dict(K=5,H=3,time=800),bounds='every sequence of K operations (obtain, wrap, detach, assign from any handle including itself, copy-construct, destroy) over H handles; stored values symbolic')
kinds('M03','m03.cpp',{'PROTO':(dict(N=2,G=2),dict(N=4,G=3),'ten type pairs; prototype interior 1..N in the focus direction, ghosts 0..G per face, every narrowing of the valid ghosts, every boundary flag (also in single-point directions); values symbolic'),
 'WINDOW':(dict(N=3),dict(N=5),'blocks up to N x 2 x 2, every sub-window, ghosts that fit, boundary flags')})
kinds('F01','f01.cpp',{'LIFE':(dict(N=2),dict(N=4,time=800),'blocks up to N x 2 x 1, every sub-window of parent and view, three storage modes, every destruction order; values symbolic'),
 'ASSIGN':(dict(N=3),dict(N=5),'blocks up to N x 2 x 1, every sub-window; values symbolic')})
unit('D01','d01.cpp','coord',quick=dict(N=3,G=1,P=2),thorough=dict(N=5,G=3,P=5),src=BASE_S,bounds='16 types x 3 directions; interior 1..N, ghosts 0..G, narrowed ghosts, boundary flag and block padding in the direction; counts 1..P, lengths symbolic reals')
unit('D02','d02.cpp','history',quick=dict(K=5,types=2),thorough=dict(K=6,types=4,asm=1,time=800),src=[],reach=['end','found','rejected'],bounds='every history of K registrations, retrievals and emptyings over two or three operator types; identifiers and operator contents symbolic')
LB='2..P points with symbolic positions (gaps at least 2^-20, within -1024..1024), orders 1..O below the number of points, evaluation point symbolic in -2048..2048 or any data point; data values symbolic'
unit('L01','l01.cpp','interp',['U_INTERP'],quick=dict(P=5,O=4,X=3),thorough=dict(P=6,O=5,X=3,time=800),src=['structured/onedim/LagrangePoly.cpp'],bounds=LB)
unit('L02','l01.cpp','deriv',['U_DERIV'],quick=dict(P=5,O=4,X=3),thorough=dict(P=6,O=5,X=3,time=800),src=['structured/onedim/LagrangePoly.cpp'],bounds=LB)
PB='uniform mesh of 2..N cells with 0 or 1 further point per side, origin symbolic in -10..10, spacings 1, 1/4, 3 and 3/4; 1..P particles with symbolic position and size (at least 1/16) lying within the mesh; values symbolic; meshes with one displaced point; particles that begin outside'
unit('P01','p01.cpp','deposit',['U_P2C'],quick=dict(N=3,P=2),thorough=dict(N=4,P=2,anydx=1,time=800),reach=['end','rejected','outside'],bounds=PB)
unit('P02','p01.cpp','average',['U_C2P'],quick=dict(N=3,P=2),thorough=dict(N=4,P=2,anydx=1,time=800),reach=['end','rejected','outside'],bounds=PB)
C1B='four shapes of two to four points (ghosts, extra boundary point, block padding), field with field or scalar with field, both polarities, values symbolic within 100, '
kinds('C01','c01.cpp',{'REL':(dict(shapes=2),dict(shapes=4,time=800),C1B+'error and absolute error symbolic, exact comparison, default absolute error'),'ABS':(dict(shapes=3),dict(shapes=4),C1B+'error symbolic of either sign, exact comparison'),'ULP':(dict(shapes=3,ulps=2),dict(shapes=4,ulps=4),C1B+'tolerance 0..ulps; second values a symbolic number of units in the last place (within ulps+1) from the first; boost float_distance uninterpreted with sign and antisymmetry')})
C2B='interior 1..N x 2, ghosts 0..1, boundary flag, padded coordinate field; parameters and coordinates symbolic (widths and deviations in 1/8..8); value, first and second derivative where offered; sin, cos, exp, tanh uninterpreted'
kinds('C02','c02.cpp',{n:(dict(N=2),dict(N=4),C2B) for n in ('LINEAR','SIN','GAUSS','TANH')})
unit('P03','p03.cpp','points',quick=dict(shapes=3,K=2),thorough=dict(shapes=4,K=3),bounds='three (four) field shapes of up to 8 points with ghosts and extra boundary points, window covering the whole block; every list of 1..K indices with repetition and order, or every non-empty selection by a location field; values symbolic')
unit('T03','t03.cpp','sem',quick=dict(W=2,R=2,per=1,preempt=2,blockcost=1),thorough=dict(W=2,R=2,per=2,preempt=2,time=800),src=[],sched=True,spurious=True,mode='threads',reach=['end'],bounds='1..W waiting and 0..R releasing threads, 1..per operations each, initial count 0..2 symbolic, every interleaving at synchronisation operations with at most `preempt` preemptions and one spurious wake-up')
T1B='K tasks of symbolic payload, 1..W workers, every interleaving at synchronisation operations and unlocked volatile accesses with at most `preempt` deviations from the default schedule (preemptions, and with blockcost also choices at blocking points and of the thread signalled)'
unit('T01','t01.cpp','once',['U_ONCE'],quick=dict(W=2,K=2,preempt=2,blockcost=1),thorough=dict(W=2,K=3,preempt=2,blockcost=1,again=1,time=800),src=[],sched=True,mode='threads',bounds=T1B)
unit('T01','t01.cpp','order',['U_ORDER'],quick=dict(K=3,preempt=2,blockcost=1),thorough=dict(K=4,preempt=2,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T1B+'; one worker, symbolic priorities 0..1000')
unit('T01','t01.cpp','nest',['U_NEST'],quick=dict(W=2,preempt=2,blockcost=1),thorough=dict(W=2,preempt=3,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T1B+'; nested scheduling, two producers, clear')
unit('T01','t01.cpp','timed',['U_TIMED'],quick=dict(W=2,K=2,preempt=1,blockcost=1),thorough=dict(W=2,K=3,preempt=2,blockcost=1,time=800),src=[],sched=True,mode='threads',reach=['end','in_time','timed_out'],bounds=T1B+'; wait with a time limit that may pass at any point')
T2B='every interleaving at synchronisation operations and unlocked volatile accesses with at most `preempt` deviations from the default schedule; '
unit('T02','t02.cpp','resize',['U_RESIZE'],quick=dict(W=2,S=2,preempt=1,blockcost=1),thorough=dict(W=3,S=3,preempt=2,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T2B+'1..W workers, every sequence of S operations (settle, schedule, resize to 1..W+1), then a shrink or not')
unit('T02','t02.cpp','shrink',['U_SHRINK'],quick=dict(W=3,preempt=1,blockcost=1),thorough=dict(W=3,preempt=3,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T2B+'2..W workers, idle or with two busy, shrunk to 0..W-1 and possibly resized again at once to 1..W')
unit('T02','t02.cpp','active',['U_ACTIVE'],quick=dict(W=2,K=2,preempt=1,blockcost=1),thorough=dict(W=3,K=3,preempt=2,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T2B+'1..W workers, active limit 0..W, K tasks, limit raised afterwards or not')
unit('T02','t02.cpp','full',['U_FULL'],quick=dict(W=2,preempt=2,blockcost=1),thorough=dict(W=3,preempt=2,blockcost=1,time=800),src=[],sched=True,mode='threads',bounds=T2B+'1..W workers, active limit 1..W, one more blocking task than workers')
unit('T02','t02.cpp','shutdown',['U_SHUTDOWN'],quick=dict(W=2,K=1,preempt=1,blockcost=1),thorough=dict(W=2,K=2,preempt=2,blockcost=1,twice=1,time=800),src=[],sched=True,mode='threads',bounds=T2B+'three shutdown policies, 1..W workers, 0..K tasks, optional resize before the pool is destroyed')
unit('T02','t02.cpp','single',['U_SINGLE'],quick=dict(W=3,S=2,preempt=1,blockcost=1),thorough=dict(W=3,S=3,preempt=2,blockcost=1,time=800),src=['ThreadPool.cpp'],sched=True,mode='threads',nth=2,bounds=T2B+'the two shared pools, S capacity/active/schedule/settle operations')
N6B='every interleaving at synchronisation operations and unlocked volatile accesses with at most `preempt` deviations from the default schedule, whole heap watched for unordered accesses; '
unit('N06','n06.cpp','sched',['U_SCHED'],quick=dict(P=2,G=0,nx=3,preempt=1,blockcost=1),thorough=dict(P=3,G=0,nx=4,kinds=7,preempt=2,blockcost=1,again=1,time=800),sched=True,mode='threads',nth=2,bounds=N6B+'one direction of nx points, 1..P pieces, active limit 1..2, four (eight) right-hand sides; all values symbolic')
unit('N06','n06.cpp','shapes',['U_SHAPES'],quick=dict(P=3,G=1,N=3,preempt=0,blockcost=1),thorough=dict(P=6,G=2,N=4,preempt=0,blockcost=1,time=800),sched=True,mode='threads',nth=2,bounds=N6B+'window shapes with up to N points per direction, 1..P pieces (also more pieces than points), active limit 1..2, ghosts 0..G, eight right-hand sides; all values symbolic')
TN=dict(sched=True,mode='threads',nth=2,lazy=True)
unit('N06','n04.cpp','cond',['U_TWO0'],quick=dict(preempt=0,blockcost=1),**TN,bounds='as N04 TWO0, two pieces, default schedule')
unit('N06','s05.cpp','stencil',['U_COMB'],quick=dict(N=2,G=2,preempt=0,blockcost=1),**TN,bounds='as S05 COMB, two pieces, default schedule')
unit('N06','n01.cpp','region',quick=dict(nlo=2,N=2,G=1,preempt=0,blockcost=1),reach=['end','rejected'],**TN,bounds='as N01 expr, two pieces, default schedule')
unit('N06','b04.cpp','masked',['U_NEBO'],quick=dict(N=2,G=1,preempt=0,blockcost=1),**TN,bounds='as B04 NEBO, two pieces, default schedule')
unit('N06','n07.cpp','single',quick=dict(N=2,G=0,preempt=0,blockcost=1),**TN,bounds='as N07, two pieces, default schedule')
unit('N06','s05.cpp','nest',['U_NEST'],quick=dict(N=2,G=3,preempt=0,blockcost=1),**TN,bounds='as S05 NEST, two pieces, default schedule')
unit('N06','s05.cpp','four',['U_FOUR'],quick=dict(N=2,G=2,preempt=0,blockcost=1),**TN,bounds='as S05 FOUR, two pieces, default schedule')
unit('N06','b03.cpp','maskconv',['U_CROSS'],quick=dict(N=2,G=1,P=1,preempt=0,blockcost=1),**TN,bounds='as B03 CROSS, two pieces, default schedule')
unit('N06','s04.cpp','copy',quick=dict(N=2,G=1,forms=1,preempt=0,blockcost=1),**TN,bounds='as S04, two pieces, default schedule')
for n_ in ('ARITH','MINMAX','CMP1','CMP2','UNARY'): unit('N06','n03.cpp',n_.lower(),['U_'+n_],quick=dict(preempt=0,blockcost=1),**TN,bounds='as N03 '+n_+', two pieces, default schedule')
unit('M04','m04.cpp','store',quick=dict(W=2,M=2,preempt=2,blockcost=1),thorough=dict(W=3,M=2,preempt=2,blockcost=1,time=800),sched=True,mode='threads',nth=2,bounds='2..W threads, each one of four request patterns (one field; two at once; one after the other; modelled on a prototype with a second handle) of sizes 1..M, pool empty or stocked, values symbolic; every interleaving at synchronisation operations and yields with at most `preempt` deviations, whole heap watched')
T4B='1..W workers, K tasks, a further waiting thread or none; every interleaving at synchronisation operations, yields and unlocked volatile accesses with at most `preempt` deviations; values symbolic'
for n_,q_ in (('VALUE',dict(W=2,K=2,preempt=1,blockcost=1)),('CANCEL',dict(W=2,preempt=2,blockcost=1)),('LOOP',dict(W=2,preempt=2,blockcost=1))):
    unit('T04','t04.cpp',n_.lower(),['U_'+n_],quick=q_,thorough=dict(q_,preempt=q_['preempt']+1,time=600),src=[],sched=True,mode='threads',bounds=T4B)
unit('R01','r02.cpp','large',quick=dict(big=1,few=1),thorough=dict(big=1),bounds='three (thorough: eight) larger windows (up to 70 points along a direction), layouts with different ghosts per face, flags on or off, one field or a two-field expression, eight reductions; one value symbolic at the first, last or middle point, the others fixed')
unit('R02','r02.cpp','large',quick=dict(big=1,few=1,interior=1),thorough=dict(big=1,interior=1),bounds='as R01 large, interior forms')
unit('N05','n05.cpp','large',quick=dict(big=1,few=1,P=1),thorough=dict(big=1,P=2),bounds='three (thorough: eight) larger windows, flags on or off; symbolic mask points; all values symbolic')
BIGS='seven or eleven points along, 3..5 across, ghosts on every face; coefficients and all values symbolic'
for p_,h_,u_,g_ in (('S01','s01.cpp','SVOL',1),('S01','s01.cpp','YVOL',1),('S02','s02.cpp','VOLS',1),('S02','s02.cpp','FROMEDGE',1),('S03','s03.cpp','WIDE',2),('S03','s03.cpp','BOX',2)):
    unit(p_,h_,'large_'+u_.lower(),['U_'+u_],quick=dict(big=7 if u_!='BOX' else 4,G=g_,forms=3),bounds=BIGS)
unit('S04','s04.cpp','large',quick=dict(big=7,G=1,forms=3),bounds=BIGS)
for u_ in ('REL','ABS'): unit('C01','c01.cpp','large_'+u_.lower(),['U_'+u_],quick=dict(big=1),bounds='three larger windows (up to 67 points in a line, 60 in three dimensions) with ghosts, extra points and padding; equal but for one symbolic value at the first, last or a middle point')
unit('B03','b03.cpp','large',['U_CROSS'],quick=dict(N=8,G=1,P=1,cross=5),bounds='as cross, eight points along and up to five across')
for p_,u_ in (('P01','U_P2C'),('P02','U_C2P')): unit(p_,'p01.cpp','long',[u_],quick=dict(N=10,P=1,big=1),bounds='uniform meshes of 10 to 13 points in all, one particle of any position and size up to the whole mesh')
for p_,u_ in (('L01','U_INTERP'),('L02','U_DERIV')): unit(p_,'l01.cpp','table',[u_],quick=dict(P=17,O=3,X=3,big=1),thorough=dict(P=33,O=4,X=3,big=1),src=['structured/onedim/LagrangePoly.cpp'],bounds='a table of 17 (thorough: 33) fixed uneven points, third (fourth) order, evaluation point symbolic or any data point')
unit('P03','p03.cpp','long',quick=dict(big=1),bounds='one field of 90 points, lists of 9 to 16 indices in three orders; values symbolic')
unit('W03','w03.cpp','long',['U_WALK'],quick=dict(big=1,n=4),bounds='three larger windows (up to 33 points in a line), symbolic offset; full walks')
unit('W03','w03.cpp','far',['U_JUMP'],quick=dict(big=1,n=4,slim=1),bounds='as long; symbolic start and jump')
for u_ in ('ACCESS','ITER','VIEW'): unit('B01','b01.cpp','wide_'+u_.lower(),['U_'+u_],quick=dict(wide=1,P=1),thorough=dict(wide=1,P=2),bounds='a window of several hundred points, listed points with symbolic coordinates')
unit('B02','b02.cpp','wide',['U_JUMP'],quick=dict(wide=1),bounds='a window of several hundred points; six starts, symbolic target')
unit('F01','f01.cpp','large',['U_LIFE'],quick=dict(big=6),bounds='a block of 6 x 5 x 3 points in three orientations, windows and views of the whole or leaving out points on one or both sides, three storage modes, every destruction order; values symbolic')
unit('F01','w05.cpp','narrowed',['U_VALUES'],quick=dict(N=2,G=1),bounds='as W05 VALUES: second handles of fields with fewer valid ghosts')
unit('F02','f02.cpp','large',quick=dict(big=1),bounds='blocks of up to 45 points, windows leaving out points on either side; read point symbolic, written points chosen; values symbolic')
unit('W05','w05.cpp','large',['U_VALUES'],quick=dict(big=1),bounds='windows of 9 x 3 x 4 points and its rotations with up to 3 ghosts; values symbolic')
unit('B04','b04.cpp','long',['U_LIST'],quick=dict(N=2,G=1,across=3,thin=2,long=1),bounds='every boundary point of a face listed in four orders, also with repetitions')
unit('B05','b05.cpp','long',quick=dict(big=3,long=1),thorough=dict(big=5,long=1),bounds='lists of up to ten points in rising, falling and scattered order and with repetitions')
unit('N02','n01.cpp','large',quick=dict(big=1,few=1),bounds='three larger windows (up to 70 points along a direction), four layouts with up to four ghosts per face')
unit('N06','n06.cpp','concurrent',['U_CONC'],quick=dict(nx=2,preempt=1,blockcost=1),thorough=dict(nx=3,kinds=2,preempt=2,blockcost=1,time=800),src=BASE_S+['ThreadPool.cpp'],sched=True,mode='threads',nth=2,bounds=N6B+'two threads, or a thread and a task of the other pool, assigning to their own fields with a common operand; 1..2 pieces each; all values symbolic')
unit('N06','n06.cpp','concurrent_queued',['U_CONC'],quick=dict(nx=2,kinds=0,minparts=2,gate=1,then=1,blockcost=1),thorough=dict(nx=2,kinds=0,minparts=2,gate=1,then=2,blockcost=1,time=800),src=BASE_S+['ThreadPool.cpp'],sched=True,mode='threads',nth=2,bounds=N6B+'as concurrent, both assignments queued before any piece starts')
unit('N06','n06.cpp','many',['U_SHAPES'],quick=dict(many=1,P=8,G=1,preempt=0,blockcost=1),thorough=dict(many=1,P=16,G=2,preempt=0,blockcost=1),sched=True,mode='threads',nth=2,bounds=N6B+'six window shapes split along x, y or z, 1..P pieces, ghosts 0..G, default schedule')
unit('T01','t01.cpp','threshold',['U_THRESHOLD'],quick=dict(W=2,K=3,preempt=1,blockcost=1),thorough=dict(W=3,K=4,preempt=2,blockcost=1,time=600),src=[],sched=True,mode='threads',bounds=T1B+'; wait with threshold 0..K while workers are inside tasks')
unit('T02','t02.cpp','regrow',['U_SHRINK'],quick=dict(one=2,preempt=3,blockcost=1),thorough=dict(one=2,preempt=4,blockcost=1,time=500),src=[],sched=True,mode='threads',bounds=T2B+'three idle workers, shrunk to one and at once grown to two')
unit('M03','m03.cpp','large',quick=dict(big=1),bounds='four windows of up to 150 points inside larger blocks, ghosts up to 4 per face; values symbolic')
for n_ in ('LINEAR','SIN','GAUSS','TANH'): unit('C02','c02.cpp','large_'+n_.lower(),['U_'+n_],quick=dict(big=4),thorough=dict(big=9),bounds='fields of up to 9 x 5 x 3 points (thorough: 9 x 10 x 3); values and parameters symbolic')
