# Registry: property id -> jobs (harness, bounds). Read by /verif/check.
PROPS = {}
def P(pid, jobs, bounds, outside='', assumptions=()): PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions))
def J(name, src, fn=None, **k): return dict(name=name, srcs=[src] if isinstance(src, str) else src, fn=fn or name, **k)
P('M01', [
    J('histories', 'listgrid.cpp', time=400, defs=['NX=2', 'NY=1', 'STEPS=3', 'LEN=4', 'EDITS=3'], tdefs=[], reach=['insertHead', 'insertTail', 'erase', 'move', 'clear', 'resize', 'end']),
    J('moved', 'listgrid.cpp', defs=['NX=2', 'NY=1', 'STEPS=2', 'LEN=4', 'EDITS=3'], reach=['end', 'erase', 'insertHead']),
    J('lists', 'listgrid.cpp', defs=['NX=2', 'NY=1', 'STEPS=2', 'LEN=4', 'EDITS=3'], tdefs=['EDITS=4'], reach=['end', 'erase', 'insertHead', 'insertTail']),
    J('copies', 'listgrid.cpp', defs=['NX=2', 'NY=1', 'STEPS=2', 'LEN=4', 'EDITS=3'], reach=['end']),
], '')

P('T03', [J('kalman', 'gmm.cpp', real=True, reach=['both certain', 'weighted']), J('kalmanf', 'gmm.cpp', real=True, reach=['end'])], '')
P('T04', [J('stats1', 'gmm.cpp', 'stats', defs=['DIM=1','NS=3'], real=True, reach=['end']), J('stats2', 'gmm.cpp', 'stats', defs=['DIM=2','NS=2'], real=True, reach=['end']),
  J('density1', 'gmm.cpp', 'density_single', defs=['DIM=1'], real=True, reach=['end']), J('density2', 'gmm.cpp', 'density_single', defs=['DIM=2'], real=True, reach=['end']),
  J('mixture1', 'gmm.cpp', 'density_mixture', defs=['DIM=1'], real=True, reach=['end']), J('mixture2', 'gmm.cpp', 'density_mixture', defs=['DIM=2'], real=True, reach=['end']),
  J('normalise', 'gmm.cpp', 'normalise', real=True, reach=['scaled', 'tiny'])], '')
P('T05', [J('em1', 'gmm.cpp', 'em_step', defs=['DIM=1'], real=True, reach=['kept']),
  J('em2', 'gmm.cpp', 'em_step', defs=['DIM=2'], real=True, reach=['kept']),
  J('em_drop', 'gmm.cpp', defs=['DIM=1'], real=True, reach=['two dropped', 'end']), J('em_likelihood', 'gmm.cpp', defs=['DIM=1'], real=True, reach=['too few', 'end']),
  J('em_init', 'gmm.cpp', defs=['DIM=1'], real=True, reach=['used', 'end']), J('em_run', 'gmm.cpp', defs=['DIM=1'], real=True, reach=['end', 'settled']),
  J('kmeans1', 'gmm.cpp', 'kmeans', defs=['DIM=1', 'NS=3'], real=True, reach=['end']),
  J('kmeans2', 'gmm.cpp', 'kmeans', defs=['DIM=2', 'NS=2'], tdefs=['DIM=2','NS=3'], real=True, reach=['end']),
  J('sampling1', 'gmm.cpp', 'sampling', defs=['DIM=1'], real=True, reach=['drawn', 'rejected']),J('sampling2', 'gmm.cpp', 'sampling', defs=['DIM=2'], real=True, reach=['drawn', 'rejected'])], '')

B='repo:src/tools/BoxLookUpTable.cpp'; R='repo:src/tools/RadialLookUpTable.cpp'
P('T01', [J('box', ['lut.cpp', B, R], reach=['inside', 'outside'], shards=2), J('box_again', ['lut.cpp', B, R], shards=2, reach=['inside', 'outside']), J('box_empty', ['lut.cpp', B, R], reach=['end'])], '')
P('T02', [J('radial', ['lut.cpp', B, R], reach=['end']), J('radial_again', ['lut.cpp', B, R], reach=['end']), J('radial_thrice', ['lut.cpp', B, R], tier='thorough', reach=['end'])], '')
CORE=['repo:src/core/%s.cpp' % x for x in ('Environment','Event','EventHandler','FrameNode','Layer','Operator','Serialization','SerializationFactory','Transform','EventSource')]
LIBS=['-lyaml','-lboost_filesystem','-lboost_thread','-lboost_system']
C=['core.cpp']+CORE
def JC(name, defs, **k): return J(name, C, libs=LIBS, defs=defs, **k)
D=lambda f,l,m,o,s: ['NF=%d'%f,'NL=%d'%l,'NM=%d'%m,'NO=%d'%o,'STEPS=%d'%s]
P('C01',[JC('ids', D(1,1,1,1,3), reach=['end','clash','automatic','detached'], time=300), JC('typed', D(1,1,1,1,2), reach=['end','outs'])],'')
P('C02',[JC('ownership', D(2,1,1,1,2), tdefs=['STEPS=3'], reach=['end','detach','deep']), JC('transfer', D(2,1,1,1,2), reach=['held','not held','refused','again'], time=300)],'')
P('C03',[JC('frames', D(2,0,1,0,4), reach=['end','deep','set frame'], time=300), JC('frames_deep', D(3,0,1,0,2), reach=['end','deep','set frame'], time=300, ttime=1500), JC('clone_to', D(1,0,1,0,1), reach=['end'])],'')
P('C06',[JC('graph', D(0,2,0,2,3), tdefs=['STEPS=4'], reach=['end','remove inputs'], time=300), JC('graph_deep', D(0,2,0,1,2), tdefs=['STEPS=3'], reach=['end','remove outputs'], time=300), JC('tree', D(0,2,1,0,3), reach=['end'], time=300), JC('mixed', D(1,1,1,1,3), reach=['end'], time=300), JC('arity', D(0,1,0,1,1), reach=['end','full','replaced']), JC('generated', D(0,1,0,1,1), reach=['update','detach','all'])],'')
P('C07',[JC('metadata', D(0,1,0,0,4), reach=['end','mismatch','removed','copied'], time=300), JC('holders', D(0,1,0,0,1), reach=['end']), JC('item_copies', D(0,1,1,0,1), reach=['end'])],'')
X=['transform.cpp']+CORE
def JX(name, defs, fn=None, **k): return J(name, X, fn, libs=LIBS, defs=defs, real=True, **k)
P('C04',[JX('relative', ['NF=3','TURNS=2'], tdefs=['TURNS=3'], reach=['end','same tree','other tree'], time=300), JX('relative_turns', ['NF=2','TURNS=5'], fn='relative', reach=['end','same tree','other tree']), JX('relative_angle', ['NF=2','TURNS=3'], reach=['end'], time=200), JX('relative_changed', ['NF=2','TURNS=2'], reach=['set','moved','removed']), JX('relative_uncertain', ['NF=2','TURNS=2'], tdefs=['TURNS=3'], reach=['uncertain','certain']), JX('map_points', ['NF=2','TURNS=3'], reach=['end']), JX('extents2', ['NF=2','TURNS=4'], reach=['end']), JX('extents3', ['NF=2','TURNS=3'], reach=['end'])],'')
def JU(name, **k): return J(name, ['uncert.cpp','repo:src/core/Transform.cpp'], real=True, **k)
P('C05',[JU('compose_identity', reach=['both','left','right','none']), JU('compose_turned', reach=['end']), JU('points', reach=['full','translation']), JU('inverses', reach=['certain','uncertain']), JU('solve_left', reach=['certain','uncertain']), JU('solve_right', reach=['certain','uncertain']), JU('rigid_body', reach=['end']), JU('point_turned', reach=['end']), JU('neutral', reach=['end']), JU('chain', reach=['end'], time=250)],'')
V=['events.cpp']+CORE
def JV(name, defs, fn=None, **k): return J(name, V, fn, libs=LIBS, defs=defs, **k)
P('C08',[JV('listener', D(2,1,1,0,3), reach=['end'], time=300), JV('listener_full', D(2,1,1,0,1), reach=['taken off','destroyed'], time=300), JV('handlers', D(0,1,0,0,1), reach=['end']), JV('filters', D(0,1,0,0,1), reach=['end','no filter'])],'')
P('C09',[JV('replay', D(1,1,1,0,3), reach=['end'], time=300), JV('replay_full', D(1,1,1,0,2), reach=['end','flushed'], time=300), JV('replay_again', D(1,1,1,1,1), reach=['flushed','pending']), JV('lenient', D(1,1,1,0,1), reach=['removed','present','missing']), JV('lenient_relations', D(1,1,1,0,1), reach=['present','missing'])],'')
S=['sync.cpp']+CORE
def JS(name, defs, fn=None, **k): return J(name, S, fn, libs=LIBS, defs=defs, **k)
P('C10',[JS('pull', D(1,1,1,0,3), reach=['end','all','new'], time=300), JS('wire', D(1,1,1,0,1), reach=['end'], time=300), JS('context', D(2,0,1,0,1), reach=['queued','direct','unplaced']), JS('wire_large', D(0,1,0,0,1), reach=['end'])],'')
P('C11',[JS('scene', D(1,1,1,1,2), reach=['end'], time=300), JS('scene_full', D(2,1,1,1,1), reach=['end'], time=300), JS('names', D(0,1,0,0,1), reach=['end']), JS('scene_again', D(1,1,1,1,1), reach=['end'])],'')
P('C12',[JS('keys', D(0,1,0,0,1), reach=['end','missing','transform']), JS('factory', D(0,1,0,0,1), reach=['made','unknown'])],'')
MAPS=['repo:src/maps/%s.cpp' % x for x in ('GridBase','Grids')]+['repo:src/tools/BresenhamLine.cpp']
def JG(name, defs=[], fn=None, **k): return J(name, ['grid.cpp']+MAPS+CORE, fn, libs=LIBS, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('G01',[JG('to_cell', reach=['inside','outside'], real=True), JG('to_cell_any', ['ANY=1','NH=1'], fn='to_cell', reach=['inside','outside']), JG('from_cell', reach=['end'], real=True), JG('framed', reach=['inside','outside'], real=True), JG('aligned', reach=['apart','aligned'], real=True), JG('cell_aligned', reach=['apart','aligned'], real=True)],'')
P('G02',[JG('line', reach=['end'], tdefs=['REACH=9']), JG('rectangle', reach=['inside','outside'], real=True, shards=2), JG('rectangles', ['NA=3','FINE=4'], reach=['inside','outside'], real=True, shards=2), JG('rectangles_flat', ['FIRSTANG=9','NA=2','FIRSTSIZE=3','NSZ=1','FINE=4'], fn='rectangles', reach=['inside'], real=True), JG('rectangles_thin', ['NA=3','FIRSTSIZE=4','NSZ=1','FINE=4'], fn='rectangles', reach=['inside'], real=True)],'')
def JB(name, defs=[], fn=None, **k): return J(name, ['bands.cpp','repo:src/maps/ElevationGrid.cpp']+MAPS+CORE, fn, libs=LIBS, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('G03',[JB('cells', reach=['end']), JB('minmax', reach=['end']), JB('minmax_d', ['CELLT=double'], fn='minmax', reach=['end']), JB('minmax_i', ['CELLT=int16_t'], fn='minmax', reach=['end']), JB('nodata', reach=['end','all']), JB('copies', reach=['band','grid']), JB('copy_refused', reach=['end','other size']), JB('images', reach=['end']), JB('create', reach=['end'])],'')
P('G04',[JB('wire', reach=['end','again']), JB('wire_b', ['CELLT=uint8_t'], fn='wire', reach=['end','again']), JB('scene', reach=['end']), JB('scene_d', ['CELLT=double'], fn='scene', reach=['end']), JB('scene_named', reach=['end']), JB('raster', reach=['end','generic']), JB('raster_b', ['CELLT=uint8_t'], fn='raster', reach=['end','generic']), JB('raster_refused', reach=['refused','read'])],'')
def JT(name, defs=[], fn=None, **k): return J(name, ['trav.cpp','repo:src/maps/TraversabilityGrid.cpp',B,R]+MAPS+CORE, fn, libs=LIBS, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('G05',[JT('classes', reach=['end','registered','full']), JT('class_range', reach=['accepted','refused']), JT('probability', reach=['end']), JT('copies', reach=['end','dropped']), JT('stored', reach=['end','again']), JT('statistic', reach=['inside','outside']), JT('border', ['NB=2','NA=5','NSZ=4'], tdefs=['NB=4','NA=5','NSZ=5'], reach=['inside','outside']), JT('worst', ['NA=2'], shards=2, reach=['inside','outside','refused']), JT('worst_probability', reach=['inside','outside'])],'')
def JE(name, defs=[], fn=None, **k): return J(name, ['elev.cpp','repo:src/maps/ElevationGrid.cpp']+MAPS+CORE, fn, libs=LIBS, real=True, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('G06',[JE('plane', reach=['end']), JE('surface', reach=['end'])],'')
def JP(name, defs=[], fn=None, **k): return J(name, ['mlspatch.cpp'], fn, defs=defs, **k)
P('G07',[JP('kalman', real=True, reach=['apart','surface','block']), JP('negative', real=True, reach=['apart','free','equal','replaced','cut']), JP('sums', real=True, reach=['apart','merged']), JP('extents', real=True, reach=['apart','merged']), JP('slope', real=True, reach=['plane','few']), JP('slope_normal', ['NORMALS'], fn='slope', real=True, reach=['plane','few']), JP('distances', real=True, reach=['end']), JP('colors', reach=['end'])],'')
MLS=['repo:src/maps/MLSGrid.cpp']
def JM(name, defs=[], fn=None, **k): return J(name, ['mls.cpp']+MLS+MAPS+CORE, fn, libs=LIBS, defs=['NF=1','NL=0','NM=0','NO=0']+([] if any(d.startswith('STEPS') for d in defs) else ['STEPS=1'])+defs, **k)
P('G08',[JM('histories', ['STEPS=3'], reach=['end','head','erase','index','move','clear']), JM('copies', reach=['end','shallow']), JM('update', real=True, reach=['new','merged','joined']), JM('update_outside', real=True, reach=['inside','outside']), JM('lookup', real=True, reach=['found','missing']), JM('project', real=True, reach=['end']), JM('spline', real=True, reach=['end']), JM('weights', real=True, reach=['end'])],'')
P('G09',[JM('stored', reach=['end','again','emptied']), JM('merging', real=True, reach=['outside','new','merged','apart']), JM('matching', real=True, reach=['some','none'])],'')
def JMM(name, defs=[], fn=None, **k): return J(name, ['mlsmap.cpp','repo:src/maps/MLSMap.cpp']+MLS+MAPS+CORE, fn, libs=LIBS, real=True, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('G10',[JMM('find_patch', reach=['found','missing']), JMM('find_again', reach=['found','missing','moved','gone']), JMM('select_grid', reach=['near','aligned','free']), JMM('create', reach=['end']), JMM('empty_map', reach=['end']), JMM('extents', reach=['end']), JMM('deep', reach=['found','missing']), JMM('assign', reach=['end'])],'')
OPS=['repo:src/operators/%s.cpp' % x for x in ('MergeMLS','MLSToGrid','GridFloatToMLS','MLSToPointCloud','MLSSlope')]+['repo:src/maps/%s.cpp' % x for x in ('MLSMap','Pointcloud','TriMesh','ElevationGrid')]+['repo:src/tools/PlyFile.cpp']
def JO(name, defs=[], fn=None, **k): return J(name, ['ops.cpp']+OPS+MLS+MAPS+CORE, fn, libs=LIBS, real=True, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
P('O01',[JO('merge_forward', reach=['end']), JO('merge_reverse', reach=['end']), JO('merge_map', ['TURNS=1'], reach=['end']), JO('to_grid', reach=['end']), JO('refused', reach=['fits','refused']), JO('fill_float', reach=['end']), JO('fill_double', reach=['end']), JO('to_cloud', reach=['end'])],'')
P('O02',[JO('slope_plane', reach=['end']), JO('steps', tdefs=['HOLES=5','TWO=1'], reach=['known','few'])],'')
PRJ=['repo:src/operators/MLSProjection.cpp']+['repo:src/maps/%s.cpp' % x for x in ('Pointcloud','TriMesh')]+['repo:src/tools/PlyFile.cpp']
def JR(name, defs=[], fn=None, **k): return J(name, ['project.cpp']+PRJ+MLS+MAPS+CORE, fn, libs=LIBS, real=True, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
PROPS['O01']['jobs'] += [JR('points', ['TURNS=2'], tdefs=['TURNS=4'], reach=['inside','outside','area']), JR('free_space', reach=['end']), JR('origin_outside', reach=['refused','projected'])]
TOPS=['repo:src/operators/%s.cpp' % x for x in ('SimpleTraversability','TraversabilityGrowClasses','TraversabilityGrassfire')]+['repo:src/maps/TraversabilityGrid.cpp',B,R]
def JW(name, defs=[], fn=None, **k): return J(name, ['travops.cpp']+TOPS+MLS+MAPS+CORE, fn, libs=LIBS, real=True, defs=['NF=1','NL=0','NM=0','NO=0','STEPS=1']+defs, **k)
PROPS['O02']['jobs'] += [JW('classify', reach=['end']), JW('clearance', reach=['end']), JW('stored', reach=['end']), JW('narrow', reach=['end']), JW('sizes', reach=['refused','fits']), JW('grow', reach=['end']), JW('fire_plane', reach=['end']), JW('fire_step', reach=['flat','step','gone']), JW('fire_roof', reach=['under','low']), JW('fire_start', reach=['found','missing','both'])]
