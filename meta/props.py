# Property texts; ../meta/gen.py writes properties.jsonl and MANIFEST.json from this file and harness/jobs.py.
TEXT = {}
def T(pid, title, statement, over, text, why, files, mech, note): TEXT[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)

T('M01', 'A grid of lists behaves as a grid of independent, ordered, value-copied lists',
  'After any history of inserting at head or tail, erasing, shifting, clearing and resizing, every cell of a list grid yields exactly the elements put there, in list order, and nothing of another cell. Copies, whether constructed or assigned between any shapes, are equal to and independent of the original for the rest of both lifetimes, and erasing returns the following element. No history touches memory that is not the grid\'s own or leaks it.',
  ['histories', 'inputs', 'configurations'], 'every history of operations, every position, shift, shape and element value', 'the norock build compiles the header and runs two clustering demos that never instantiate it; the unit tests insert a handful of patches',
  ['src/tools/ListGrid.hpp'], [('intrusive singly linked list with back pointers', 'src/tools/ListGrid.hpp insertHead, insertTail, erase'), ('pool ownership on copy and clear', 'src/tools/ListGrid.hpp operator=, clear'), ('cell relocation', 'src/tools/ListGrid.hpp move')],
  'symbolic histories up to the stated length on small grids, all element values; pool, array and iterator code of boost is executed as compiled')
T('T01', 'A box distance table answers every query with the distance to the box',
  'For any query point within the configured maximum distance, the table answers the distance from the point to the box centred at the origin, up to the cell size and never for a different box or resolution than the last one configured. Points outside the table, and any query before configuration, are rejected with an exception instead of an arbitrary value.',
  ['inputs', 'configurations', 'histories'], 'every query point, a family of box sizes, resolutions and distances, and reconfiguration sequences', 'no existing test runs the table; a few sampled points cannot show there is no hole at a border',
  ['src/tools/BoxLookUpTable.cpp', 'src/tools/BoxLookUpTable.hpp'], [('grid alignment and sizing', 'BoxLookUpTable::recompute'), ('sampling of the table', 'BoxLookUpTable::computeDistances'), ('bounds check of the lookup', 'BoxLookUpTable::getDistanceToBox')],
  'every dyadic query point with 1/64 resolution for each configuration of a table of configurations; the oracle is the closed-form distance')
T('T02', 'A radial table answers distance and direction of every cell from its centre',
  'For every cell offset inside the configured radius, the table answers the Euclidean distance and the direction of that cell from the centre. Reconfiguring any number of times makes all later answers those of the last configuration.',
  ['inputs', 'configurations', 'histories'], 'every offset in range and every sequence of configurations from a family', 'no existing test runs the table',
  ['src/tools/RadialLookUpTable.cpp', 'src/tools/RadialLookUpTable.hpp'], [('recomputation on change', 'RadialLookUpTable::recompute'), ('table indexing', 'RadialLookUpTable::getDistance, getAngle')],
  'every offset is symbolic for each configuration (pair, in the thorough tier triple, of configurations)')
T('T03', 'Fusing two height estimates is the precision-weighted Kalman update',
  'Fusing an estimate with a measurement yields the mean weighted by the inverse variances and the harmonic combination of the variances, for single and double precision. The fused deviation is never negative and never larger than either input; two exact values fuse to their average with zero deviation.',
  ['inputs'], 'all means and all non-negative deviations', 'no existing test calls it; it is called with sampled values only',
  ['src/tools/Numeric.hpp'], [('scalar Kalman gain', 'src/tools/Numeric.hpp kalman_update')],
  'exact real arithmetic over all inputs in the stated ranges; rounding is outside')
T('T04', 'Gaussian and mixture densities, statistics and weights follow their definitions',
  'A Gaussian evaluates to the normal density for its mean and covariance, a mixture to the weighted sum of its components, and normalising makes the weights sum to one in unchanged proportions. Accumulated statistics give the weighted mean and covariance of exactly the samples inserted.',
  ['inputs', 'configurations'], 'all points, means, positive definite covariances, weights and sample sets up to the stated sizes', 'the two demos print clustering results and check nothing',
  ['src/tools/GaussianMixture.hpp'], [('density', 'Gaussian::eval, GaussianMixture::eval'), ('sample statistics', 'Gaussian::Stats'), ('weight normalisation', 'GaussianMixture::normalize')],
  'exact real arithmetic, exp and sqrt axiomatised; one and two dimensions')
T('T05', 'Clustering, expectation maximisation and sampling follow their definitions',
  'An expectation-maximisation step yields the responsibility-weighted weights, means and covariances, reports the mean log likelihood and drops only components that lost their support; k-means ends with every sample in the cluster of the nearest mean and each cluster described by its members. Drawing from a mixture picks components with their weight and deviates by the component covariance, and a mixture without enough mass is rejected.',
  ['inputs', 'configurations'], 'all samples, weights and mixtures up to the stated sizes', 'the two demos run one fixed random data set and check nothing',
  ['src/tools/ExpectationMaximization.hpp'], [('EM step', 'ExpectationMaximization::step'), ('initialisation', 'ExpectationMaximization::initialize'), ('k-means iteration', 'KMeans::run'), ('sampling', 'GaussianMixtureSampling::sample')],
  'exact real arithmetic, exp, log and sqrt axiomatised; up to three samples and two components')

T('C01', 'Every attached item has a unique, stable identifier and is found by it',
  'Attaching an item whose identifier is complete keeps it (prefixed by the environment prefix when relative), an identifier that is empty or ends in a slash is completed with a number never used before under that environment, and an identifier in use is rejected leaving the item outside. From then on the identifier does not change, no two attached items share one, and lookups by identifier or by type answer exactly the attached items; detached items are not found any more.',
  ['histories', 'inputs'], 'every history of attaching and detaching items of any kind with any form of identifier and environment prefix', 'the unit tests attach a handful of items with default identifiers, and do not build here',
  ['src/core/Environment.cpp', 'src/core/EnvironmentItem.hpp', 'src/Core.hpp'], [('identifier completion and clash test', 'src/core/Environment.cpp attachItem, EnvironmentItem::setUniqueId'), ('prefix normalisation', 'Environment::setEnvironmentPrefix'), ('typed lookup', 'src/core/Environment.hpp getItem<T>, getItems<T>')],
  'symbolic histories of operations; identifiers from a table of every form; bounds in the evidence')
T('C02', 'An environment owns its items: no leak, no double free, no dangling link',
  'An environment keeps every attached item alive; an item is destroyed exactly once, when it is neither attached nor held by a reference, whether it was detached alone or with its subtree, moved to another environment, or its environment was destroyed. An item moved to another environment takes its identifier along and leaves no link behind in the old one, and an attachment that is refused changes nothing else.',
  ['histories'], 'every history of attaching, linking, holding, detaching, moving and destroying', 'a leak or a use after free does not fail an assertion, and the order of release matters',
  ['src/core/Environment.cpp', 'src/core/EnvironmentItem.hpp'], [('intrusive reference count', 'src/core/EnvironmentItem.hpp intrusive_ptr_add_ref/release'), ('detaching one item or a subtree', 'Environment::detachItem'), ('moving between environments', 'Environment::attachItem'), ('teardown', 'Environment::~Environment')],
  'symbolic histories with memory checking of every access, destructor counters and a heap balance')
T('C03', 'The frame tree and the placement of maps are what the operations made them',
  'After any history of adding and removing child frames, placing maps, attaching and detaching (alone or with the subtree), parent, children, root and maps of every frame and the frame of every map answer exactly the last relation established, each frame having at most one parent and each map at most one frame. Removing something that is not related changes nothing, a map attached without a frame hangs on the root node, and a map cloned to another environment hangs there under copies of its frames.',
  ['histories'], 'every history of frame and map operations, with an environment root and any shape of tree within the bounds', 'the relations are kept in two maps each that must stay inverse under every history',
  ['src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/Core.hpp'], [('frame tree', 'Environment::addChild/removeChild/getParent/getChildren(FrameNode*)'), ('map placement', 'Environment::setFrameNode/detachFrameNode/getMaps'), ('detaching with the subtree', 'Environment::detachItem(item, deep)'), ('cloning', 'CartesianMap::cloneTo')],
  'symbolic histories compared with a reference model through every query of the interface')
T('C04', 'Relative transforms map a point to the same physical place in any frame',
  'For any two frames of one tree the relative transform takes the coordinates of a point in the first to the coordinates of the same place in the second, composing the transforms along the path, whatever was moved, re-parented or given a new transform before; frames of different trees are refused with an exception. Points brought into and out of a map and the bounding box of a map in another frame follow it: the box is the smallest one around the transformed extents.',
  ['inputs', 'histories', 'configurations'], 'all translations and points, rotations of a table and every rotation about an axis, every shape of frame tree within the bounds', 'sampled poses miss the wrong order of a product or a missing inverse for most shapes of tree',
  ['src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/Core.hpp'], [('walk to the common root', 'Environment::relativeTransform, relativeTransformWithUncertainty'), ('map coordinates', 'src/Core.hpp Map::toMap, fromMap'), ('extents in another frame', 'src/Core.hpp Map::getExtentsTransformed')],
  'exact real arithmetic over all translations and points; rounding is outside')
T('C05', 'Uncertainty of transforms and points propagates to first order',
  'Composing, inverting and applying uncertain transforms yields the transform of the certain operation together with the covariance of first-order error propagation; a result is uncertain exactly when a part of it was. Solving a composition for either of its parts answers that part with its covariance, composing with a certain identity changes nothing, and body states convert to transforms and back without loss.',
  ['inputs', 'configurations'], 'all translations, points and covariances in the stated ranges, rotations of a table', 'the unit test compares a few sampled covariances and does not build here',
  ['src/core/Transform.cpp', 'src/core/Transform.hpp'], [('composition and its inverses', 'TransformWithUncertainty::composition, compositionInv, preCompositionInv'), ('derivatives of rotations', 'src/core/Transform.cpp drx_by_dr, dr2r1_by_r1, dr2r1_by_r2'), ('points', 'TransformWithUncertainty::operator*(PointWithUncertainty)'), ('body states', 'TransformWithUncertainty::operator=, copyToRigidBodyState')],
  'exact real arithmetic; the closed forms hold exactly without rotation and within the accuracy of the truncated series with it')
T('C06', 'The operator graph and the layer tree are what the operations made them',
  'After any history, the inputs and outputs of every operator, the generator of every layer, the layers derived from a layer, and the parents and children of every layer are exactly the relations added and not removed since, each once; detaching an item removes all of its relations. An operator refuses more inputs or outputs than its arity, a dirty generated layer is recomputed by its generator and then clean, and updating the environment runs every operator once.',
  ['histories'], 'every history of linking, unlinking, attaching and detaching operators and layers within the bounds', 'the relations live in multimaps that admit duplicates and stale entries only some histories produce',
  ['src/core/Environment.cpp', 'src/core/Operator.cpp', 'src/core/Layer.cpp'], [('operator graph', 'Environment::addInput/addOutput/removeInput/removeOutput/removeInputs/removeOutputs'), ('layer tree', 'Environment::addChild/removeChild(Layer*)'), ('arity', 'Operator::addInput/setInput/addOutput/setOutput'), ('update of generated layers', 'Layer::updateFromOperator, Environment::updateOperators')],
  'symbolic histories compared with a reference model through every query of the interface')
T('C07', 'Layer metadata is typed, kept by key, and copied with the layer',
  'Metadata is created on first access, keeps its value until removed, is reported under its key and type only, and access under another type is refused with an exception. Copies of layers and of holders carry equal and independent metadata, a copied item has the contents but neither identifier nor environment of the original, assigning contents keeps identity and place, and everything is freed with its owner.',
  ['histories', 'inputs'], 'every history of creating, reading, writing, removing and copying metadata of two types under two keys', 'the existing tests never ask for the wrong type nor copy a layer with metadata',
  ['src/core/Layer.cpp', 'src/core/Layer.hpp', 'src/core/Holder.hpp', 'src/core/EnvironmentItem.hpp'], [('typed access', 'src/core/Layer.hpp getData, hasData; src/core/Holder.hpp get'), ('deep copy', 'Layer::Layer(const Layer&), Layer::operator=, HolderBase::clone'), ('item copy', 'EnvironmentItem copy constructor, set')],
  'symbolic histories with a heap balance at the end')

T('C08', 'A listener that only hears events knows the environment exactly',
  'A handler registered at any time is told everything already there and afterwards every change, once and in an order in which relations are reported between attached items only, so that what it was told always equals the items, frame tree, map placements, layer tree and root of the environment. When it is removed, or the environment destroyed, it sees everything go and hears nothing more; a filter decides what a handler hears, and each registered handler hears each event once.',
  ['histories'], 'every history of operations and every point of registration and removal within the bounds', 'a missing event shows only for the history that needs it',
  ['src/core/Environment.cpp', 'src/core/EventHandler.cpp', 'src/core/EventSource.cpp'], [('content published on registration', 'Environment::addEventHandler, publishChilds'), ('content withdrawn on removal', 'Environment::removeEventHandler, detachChilds'), ('events of the operations', 'Environment::handle and its callers'), ('dispatch and filters', 'EventDispatcher::dispatch, EventHandler::receive')],
  'symbolic histories; a strict listener asserts on every event and is compared with the reference model')
T('C09', 'Queued events replayed into another environment reproduce the first',
  'An environment that follows another one through an event queue has, after every flush, the same items with the same identifiers and contents, the same frame tree, map placements and layer tree, however many changes were merged in the queue in between; flushing twice changes nothing. Applying an event to an environment that already has or does not have the item ends in the state the event describes and is reported to its own handlers.',
  ['histories', 'inputs'], 'every history of operations and modifications, every point of registering and flushing, all contents', 'which queued events cancel each other depends on the whole history between two flushes',
  ['src/core/Event.cpp', 'src/core/EventHandler.cpp'], [('merging of queued events', 'Event::merge, EventQueue::handle'), ('copies of the contents', 'Event::ref'), ('applying', 'ApplyEventHelper, Event::apply')],
  'symbolic histories with symbolic contents, copies kept by the queue (multithreading allowed)')
T('C10', 'Binary synchronisation carries every change to the other environment',
  'Pulling events and applying them to another environment makes it equal to the first in items, identifiers, contents, transforms with their covariance, binary streams, frame tree, map placements and layer tree, whether all or only new events are pulled, and events are pulled once. Items of any size arrive, with context updates the events of a map alone suffice to place it with its chain of frames, and nothing is leaked.',
  ['histories', 'inputs'], 'every history of operations with any point of pulling, all transforms, covariances, bytes and flags', 'the unit test sends one map; sizes, flags and orders it does not send are not covered',
  ['src/core/Serialization.cpp', 'src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/core/Layer.cpp'], [('binary events', 'BinarySerialization::serializeBinaryEvent, unserializeBinaryEvent, applyEvent'), ('pulling', 'Environment::pullEvents, SynchronizationEventQueue::popEvents'), ('context updates', 'SynchronizationEventHandler::process'), ('contents', 'EnvironmentItem, Layer, FrameNode serialize/unserialize')],
  'symbolic histories; the text form of YAML is replaced by an equivalent one in the symbolic build and real libyaml runs in the replays')
T('C11', 'A scene written to disk is read back as the same environment',
  'Writing an environment to a directory and reading it back yields the same items with class, identifier, label, contents, transforms and binary data, the same frame tree, map placements, layer tree and operator graph, with the root node being the root node and identifiers handed out later being new. Writing over an older scene leaves nothing of it, layers of one scene do not get each other\'s files, and a scene that is not there is refused with an exception.',
  ['histories', 'inputs'], 'every history building an environment within the bounds, all transforms, covariances and bytes', 'the unit test round-trips one fixed environment',
  ['src/core/Serialization.cpp', 'src/core/Environment.cpp', 'src/core/Layer.cpp'], [('writing', 'FileSerialization::writeToFile'), ('reading', 'FileSerialization::readFromFile'), ('binary files', 'FileSerialization::getBinaryInputStream/OutputStream, Layer::getMapFileName')],
  'symbolic histories; files are kept in memory in the symbolic build, real files and libyaml in the replays')
T('C12', 'Keys and classes are read back exactly or refused',
  'A value written under a key is read back equal under that key, a key is reported present exactly when it was written, and reading a missing key says so and leaves the value alone. A class name, with or without scope, is made by the factory registered last for it, and an unknown class name is refused with an exception.',
  ['inputs', 'histories'], 'all numbers and transforms, texts of a table, names of a table, pairs of keys', 'only registered names and present keys occur in the unit tests',
  ['src/core/Serialization.cpp', 'src/core/Serialization.hpp', 'src/core/SerializationFactory.cpp'], [('keys', 'Serialization::read, write, hasKey'), ('factory lookup', 'SerializationFactory::createObject, addClass')],
  'symbolic values and choices from tables')
T('G01', 'Grid coordinates and cells convert to each other without gap or overlap',
  'A point of the plane falls into exactly the cell whose square contains it, measured from the offset in units of the cell size, and a point outside of the grid, however far, is reported to be in no cell. A cell converts to its centre, which lies in that cell, both directly and through the frame of the grid or any other frame, and the extents of a grid are exactly the union of its cells. Two grids are reported aligned, or cell aligned, exactly when their cells coincide.',
  ['inputs', 'configurations'], 'all points, cells, sizes, scales, offsets and frame translations in the stated ranges', 'an off-by-one or an overflowing index shows only at the borders or far outside',
  ['src/maps/GridBase.cpp', 'src/maps/GridBase.hpp'], [('conversion', 'GridBase::toGrid, fromGrid'), ('frames', 'GridBase::toGrid/fromGrid with a FrameNode'), ('extents', 'GridBase::getExtents'), ('alignment', 'GridBase::isAligned, isCellAligned')],
  'exact real arithmetic for the geometry, bit-precise for arbitrary doubles against one configuration of the grid')
T('G02', 'Drawing lines and visiting rectangles touches exactly the cells concerned',
  'A line between two cells starts at the first, ends at the last, moves to a neighbouring cell with each step and stays within half a cell of the ideal line. Visiting a rectangle in a grid calls back once for each cell whose centre lies in the rectangle and for no cell of which no part does; visiting two nested rectangles tells cells of the inner one from those of the outer one only, each once. Cells outside of the grid are never visited.',
  ['inputs', 'configurations'], 'all start and end cells, and all positions of rectangles of tables of sizes and angles', 'gaps appear for particular angles and positions only',
  ['src/tools/BresenhamLine.cpp', 'src/maps/GridBase.cpp', 'src/maps/GridBase.hpp'], [('line', 'Bresenham::init, getNextPoint'), ('rectangles', 'GridBase::forEachInRectangle, forEachInRectangles')],
  'all cells in the stated reach; exact real arithmetic for rectangle positions, angles and sizes from tables')
T('G03', 'The bands of a grid are independent arrays with their own no-data value',
  'What is written into a cell of a band is what this cell of this band reads until it is written again; bands do not share cells and a band or no-data value that does not exist is refused with an exception. The minimum and maximum of a band are those of its cells that hold data, copying a band or a whole grid, as values or as images, yields equal and independent data, and copying between grids of different size is refused.',
  ['inputs', 'histories'], 'all cell values of several types, cells, bands and no-data values within the bounds', 'sampled values do not include negative-only bands, no-data everywhere or unequal sizes',
  ['src/maps/Grid.hpp', 'src/maps/GridBase.cpp'], [('bands', 'src/core/Layer.hpp getData; src/maps/Grid.hpp getGridData'), ('statistics', 'Grid::getMax, getMin'), ('copies', 'Grid::copyBandFrom, copyFromImage, copyToImage'), ('no data', 'Grid::setNoData, getNoData')],
  'symbolic values, cells and bands; small grids')
T('G04', 'Grids keep geometry, bands and values when stored or sent',
  'A grid sent as a binary event or written with its scene and read back has the same size, scale, offset, bands, no-data values and cell values. Raster files exchanged with other programs carry the values and the placement of the cells, and a file that is missing, of another type or without the requested band is refused with an exception.',
  ['inputs', 'configurations'], 'all cell values, scales and offsets in the stated ranges, cell types of a table', 'round trips of fixed grids miss values that collide with markers',
  ['src/maps/Grid.hpp', 'src/maps/GridBase.cpp', 'src/maps/GridBase.hpp'], [('properties', 'GridBase::serialize, unserialize'), ('scene files', 'Grid::serialize, unserialize'), ('raster files', 'Grid::writeGridData, readGridData')],
  'symbolic values; the raster library is an in-memory stand-in with the behaviour of GDAL for the calls made, in both builds')
T('G05', 'Traversability grids answer classes, probabilities and what a footprint covers',
  'A cell has the class and probability last set, classes keep their drivability in copies and storage, unknown classes are refused and a new class gets a free number. The statistic of a footprint counts each covered cell once, with the least distance per class to the centre or, on the border, to the box, and the worst class and probability of a footprint are the least drivable and least probable ones it covers.',
  ['inputs', 'histories', 'configurations'], 'all classes, drivabilities and probabilities of the cells, poses, sizes and borders of tables', 'class 255, thin borders and unknown classes are not among samples',
  ['src/maps/TraversabilityGrid.cpp', 'src/maps/TraversabilityGrid.hpp'], [('statistics', 'TraversabilityStatistic, computeStatistic'), ('worst class', 'getWorstTraversabilityClassInRectangle, getWorstProbabilityInRectangle'), ('classes', 'setTraversabilityClass, registerNewTraversabilityClass'), ('storage', 'serialize, unserialize')],
  'symbolic cell values; square cells; which cells a footprint covers is the matter of G02')
T('G06', 'Elevation grids interpolate heights and normals from their cells',
  'The height and normal answered anywhere in an elevation grid, up to its border, are those of the plane when the cells lie on one; at a cell centre the height is that of the cell, and the normal of an inner cell follows its neighbours. Points outside of the grid are refused.',
  ['inputs', 'configurations'], 'all planes, all heights of cells, all points of small grids', 'values at the border show only for particular points',
  ['src/maps/ElevationGrid.cpp', 'src/maps/ElevationGrid.hpp'], [('normals', 'ElevationGrid::getNormal'), ('heights', 'ElevationGrid::getElevation, get')],
  'exact real arithmetic; grids of one to three cells along each axis')
T('G07', 'Merging surface patches combines exactly their evidence',
  'Patches merge exactly when they are within the gap: surfaces to their weighted mean, what is too far apart for a surface to a block that covers both, and summed measurements to their weighted mean, spread, extents and plane, independent of the height of the origin and of which patch is merged into the other. Free space and structure never overlap after a merge, the newer one winning; patches that are not merged are not changed.',
  ['inputs', 'histories'], 'all heights, deviations, block heights and orders of two to five patches', 'a wrong weight, cut or containment shows for particular constellations only',
  ['src/maps/MLSPatch.hpp'], [('model of means', 'SurfacePatch::mergeMLS'), ('model of sums', 'SurfacePatch::mergeSum, updateSum'), ('model of planes', 'SurfacePatch::mergePlane, updatePlane'), ('intervals', 'overlap')],
  'exact real arithmetic; deviations of measurements from a table in the sum models; the plane fit is a least squares stand-in of the library')
T('G08', 'A multi-level surface grid keeps, finds and updates the patches of its cells',
  'After any history of inserting, erasing, moving, clearing and copying, each cell has its patches in order, the patches are counted, and index and extents contain all cells in use. An update merges the new patch with all patches near to it into one, in its cell only, leaves the others alone and loses nothing; a lookup finds a patch near enough when there is one, and points and paths are laid on the nearest surface.',
  ['histories', 'inputs'], 'every history within the bounds, all heights of patches and measurements', 'counts and indices go stale for histories no test has',
  ['src/maps/MLSGrid.cpp', 'src/maps/MLSGrid.hpp', 'src/tools/ListGrid.hpp'], [('bookkeeping', 'MLSGrid::insertHead/insertTail/erase/move/clear, addCell, initIndex'), ('update', 'MLSGrid::updateCell, update'), ('lookup', 'MLSGrid::get'), ('projection', 'MLSGrid::projectPointsOnSurface, projectSplineOnSurface')],
  'symbolic histories on a grid of two by two cells, exact real arithmetic for the heights, up to two patches in the cell updated')
T('G09', 'Multi-level surface grids are transferred, merged and matched without loss',
  'A surface grid sent or stored and read back, also into a grid with other content, has exactly the same patches, order, configuration, count, extents and index. Merging one grid into another puts each patch, moved by transform and offset with all its evidence, into the cell of its place and leaves the source alone, and matching answers the share of cells that fit under that same placement.',
  ['inputs', 'histories', 'configurations'], 'all patch contents bit by bit, all heights and vertical offsets, transforms of a table', 'the unit tests do not build here and sample a few patches',
  ['src/maps/MLSGrid.cpp', 'src/maps/MLSPatch.hpp'], [('storage', 'MLSGrid::serialize, unserialize, writeMap, readMap'), ('merging grids', 'MLSGrid::merge'), ('matching grids', 'MLSGrid::match')],
  'bit-precise for storage, exact real arithmetic for merging; transforms are quarter turns with translations')
T('G10', 'A map of surface grids finds patches in its grids and tracks the active one',
  'A lookup answers a patch exactly when one of the grids attached at that time has one near enough at that place as the grids are placed at that time, and says which. The active grid stays while the robot is within the requested margin of it, otherwise a grid that fits is taken or one is created at the place of the robot, and the extents are those of all grids. Copies of a map, deep or not, keep grids, placement and data, and a map without grids answers nothing rather than failing.',
  ['histories', 'inputs', 'configurations'], 'all heights, deviations, transforms of a table, attach, move and remove between lookups', 'stale results show only after a grid moved or went away',
  ['src/maps/MLSMap.cpp', 'src/maps/MLSMap.hpp'], [('lookup', 'MLSMap::getPatch'), ('active grid', 'MLSMap::selectActiveGrid, createGrid, addGrid'), ('copies', 'MLSMap::cloneDeep, operator=, copy constructor'), ('extents', 'MLSMap::getExtents')],
  'exact real arithmetic; one or two grids with transforms from a table')
T('O01', 'Operators between surface grids, grids and points keep place and value',
  'Projecting points into a surface grid, merging surface grids, taking the topmost surface of a grid and turning surface patches, grids and points into each other puts each value into the cell that contains it under the transform between the items, with height, deviation, colour and extents unchanged but for that transform. Everything in the inputs that lies in the output, and nothing else, shows up in it. Inputs and outputs that do not fit together, and origins outside of a map that is to take free space, are refused or skipped without harm.',
  ['inputs', 'configurations'], 'all heights, deviations, colours and point coordinates in the stated ranges, transforms of a table', 'the operators have no tests that build here, and frames that differ from each other are needed for most faults',
  ['src/operators/MLSProjection.cpp', 'src/operators/MergeMLS.cpp', 'src/operators/MLSToGrid.cpp', 'src/operators/GridFloatToMLS.cpp', 'src/operators/MLSToPointCloud.cpp'], [('projection', 'MLSProjection::projectPointcloud, projectPointcloudWithUncertainty, updateAll'), ('merging', 'MergeMLS::updateAll'), ('topmost surface', 'MLSToGrid::updateAll'), ('grids to surfaces', 'GridFloatToMLS::updateAll'), ('surfaces to points', 'MLSToPointCloud::updateAll')],
  'exact real arithmetic; grids of two or three cells along each axis, one or two points or patches per cell, quarter turns and translations')
T('O02', 'Traversability follows from slope, step, obstacles and reachability',
  'The slope and largest step of a cell are those between its surface and those of its neighbours, and are unknown exactly when there is nothing to compare. Each cell gets the class its slope, step and force limits ask for, with obstacles, and all cells within the clearance of them, as obstacles, and settings survive storage. Growing classes gives each cell the least drivable class within the radius, and a reachability search marks just what is connected to the start by steps within the limits.',
  ['inputs', 'configurations'], 'all heights and inclinations of planes, steps and obstacles in the stated ranges, all values of the input bands in small grids', 'faults at the border, for missing cells and for settings out of the ordinary are not among samples',
  ['src/operators/MLSSlope.cpp', 'src/operators/SimpleTraversability.cpp', 'src/operators/TraversabilityGrowClasses.cpp', 'src/operators/TraversabilityGrassfire.cpp'], [('slope and steps', 'MLSSlope::updateAll'), ('classes', 'SimpleTraversability::updateAll'), ('clearance', 'SimpleTraversability::closeNarrowPassages, growObstacles'), ('growing', 'TraversabilityGrowClasses::updateAll'), ('reachability', 'TraversabilityGrassfire::updateAll')],
  'exact real arithmetic; grids of up to five cells along each axis, planes, single steps and single obstacles at symbolic heights and places')
NOT_APPLICABLE = {}
