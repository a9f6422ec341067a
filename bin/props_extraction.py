X, XA = 'extraction', 'extraction_app'
unit(X, LIB, 'extraction/src/**/*.cpp')
unit(XA, LIB, 'extraction/src/**/*.cpp')
EX = 'extraction/include/lidar_feature_extraction/'
P('C01', 'Scan points are grouped by ring and ordered by polar angle',
  'Grouping a scan puts every point into exactly one ring, the one its ring number names, and orders each ring by ascending polar angle of (x, y) in (-pi, pi], the origin counting as angle 0. The angle comparison is a strict weak ordering that agrees with the exact angles for all finite float coordinates. Removing sparse rings removes exactly the rings with fewer points than the minimum, and the ring channel counts as available exactly when a field is named "ring".',
  ['inputs'], 'every finite point pair and triple; every scan of up to 4 (thorough 5) points over three ring numbers',
  'The tests compare a few dozen hand-picked angles and never two points on the positive x axis, so ties, axis points and rounding go unexamined.',
  [EX + 'ring.hpp', 'extraction/src/ring.cpp'], [('AHasSmallerPolarAngleThanB', EX + 'ring.hpp'), ('MakePointIndices, SortEachRingByAngle', EX + 'ring.hpp'), ('RemoveSparseRings, RingIsAvailable', 'extraction/src/ring.cpp')],
  [E(X, 'h_ring_cmp_real', 'real', ['less', 'not-less'], 'two points, any real x and y'),
   E(X, 'h_ring_cmp_fp', 'fp', ['less', 'not-less'], 'two points, any finite binary32 x and y, exact IEEE arithmetic'),
   E(X, 'h_ring_transitive_real', 'real', ['chain', 'equivalent'], 'three points, any real x and y'),
   E(X, 'h_ring_extract', 'real', ['removed', 'kept', 'end'], 'scans of 0..3 (thorough 0..4) points, rings among {0, 13, 65535}, any coordinates; minimum 0..3'), E(X, 'h_ring_extract_long', 'real', ['removed', 'kept', 'end'], '50 points on five rings, one of them anywhere'),
   E(X, 'h_ring_available', 'real', ['yes', 'no'], 'up to 3 fields, names among x, ring, rin, "ring ", intensity')])
P('C02', 'Two points are neighbours exactly when their bearing differs little',
  'The angle between two non-zero horizontal positions is the acos of their normalised inner product, lies in [0, pi], is symmetric and is never NaN, also for (nearly) collinear points; two zero positions are rejected. Two points of a ring are neighbours exactly when that angle is below the threshold, whatever slice of the ring is looked at; indices outside the ring and rings of fewer than two points are rejected.',
  ['inputs', 'configurations'], 'all coordinates; thresholds 2 degrees, 0.5 rad and 1.7 rad; rings of 2 and 3 points in several orders; slices',
  'The tests use eight coordinate pairs; rounding of the cosine above 1 happens only for particular collinear coordinates.',
  [EX + 'neighbor.hpp', 'extraction/src/math.cpp', EX + 'math.hpp', EX + 'mapped_points.hpp'], [('CalcRadian', 'extraction/src/math.cpp'), ('NeighborCheckXY', EX + 'neighbor.hpp'), ('MappedPoints', EX + 'mapped_points.hpp')],
  [E(X, 'h_radian', 'real', ['end'], 'any two non-zero positions'),
   E(X, 'h_radian_collinear_fp', 'fp', ['end'], 'a point (x, 1) with x any float in [1, 2] against itself, exact IEEE (thorough: also y = 0.1 and 30)', opt=dict(qtimeout=60000)),
   E(X, 'h_radian_zero', 'real', ['end']),
   E(X, 'h_neighbor', 'real', ['near', 'far', 'slice'], 'three points with any non-zero positions, three orders, three thresholds'),
   E(X, 'h_neighbor_min', 'real', ['ok', 'throws'], '0..3 points'),
   E(X, 'h_mapped_points', 'real', ['end'], '4 points, 0..3 indices, every slice')])
P('C03', 'Ranges are horizontal distances and out-of-range points are excluded',
  'The range of a point is its horizontal distance sqrt(x^2 + y^2) and a slice [begin, end) of ranges holds the ranges of exactly those points. After out-of-range labelling a point is marked out of range exactly when its range is not within the inclusive interval [min, max], and every other label is kept.',
  ['inputs', 'configurations'], 'all coordinates and limits, rings of up to 2 (thorough 3) points, exact IEEE for one point',
  'The tests label one fixed ring and only ever slice from index 0.',
  [EX + 'range.hpp', EX + 'out_of_range.hpp', EX + 'math.hpp'], [('Range', EX + 'range.hpp'), ('LabelOutOfRange', EX + 'out_of_range.hpp')],
  [E(X, 'h_range_real', 'real', ['in', 'out'], '0..2 (thorough 0..3) points, any coordinates and limits'),
   E(X, 'h_range_fp', 'fp', ['in', 'out'], '0..1 points, any binary32 coordinates and binary64 limits, exact IEEE'),
   E(X, 'h_range_slice', 'real', ['offset-slice'], '4 points, every slice')])
P('C04', 'Blocks partition a ring without gaps, overlaps or empty blocks',
  'Dividing an index interval into n blocks yields n contiguous, non-empty, nearly equal blocks that start at the first and end at the last index, and the division is refused exactly when the interval has fewer indices than blocks. The padded division leaves the padding at both ends of the ring out, and block numbers outside [0, n) are rejected.',
  ['inputs', 'configurations'], 'all intervals with start 0..14 and end up to 255 (thorough 63 and 2047), 1, 2, 3 or 6 blocks (thorough 1..8)',
  'The tests check five divisions; boundary rounding fails only for particular combinations of start, end and block count.',
  ['extraction/src/index_range.cpp', EX + 'index_range.hpp'], [('IndexRange, PaddedIndexRange', 'extraction/src/index_range.cpp')],
  [E(X, 'h_blocks', 'fp', ['blocks', 'rejected'], 'start 0..14, end -20..255 symbolic, blocks in {6,1,2,3} (thorough: 0..63, ..2047, {6,1,2,3,4,5,7,8})'),
   E(X, 'h_blocks_odd', 'fp', ['blocks'], 'blocks in {5, 9, 11} (thorough: also 13, 17, 20), start 0..10, end up to 127'),
   E(X, 'h_blocks_padded', 'fp', ['blocks'], 'padding 0..10, ring size 0..99 (thorough 0..299), 1..2 (thorough 1..3) blocks')])
P('C05', 'Curvature is the squared discrete Laplacian of the ranges',
  'Curvature has one value per range: at least padding points away from both ends it is the square of (sum over the 2*padding neighbours minus 2*padding times the range), elsewhere 0; it is 0 wherever the range profile is linear. Rings shorter than 2*padding+1 are refused. The underlying convolution multiplies each window by the weights in order and refuses inputs shorter than the kernel, and the index sort returns a permutation in ascending value order.',
  ['inputs', 'configurations'], 'all range values; padding 1..2 (thorough 1..3), up to 6 (thorough 9) ranges; kernels of width 1, 3, 5; sorting up to 4 (thorough 5) values',
  'The tests use two fixed inputs.',
  ['extraction/src/curvature.cpp', 'extraction/src/convolution.cpp', EX + 'algorithm.hpp'], [('CalcCurvature, MakeWeight', 'extraction/src/curvature.cpp'), ('Convolution1D', 'extraction/src/convolution.cpp'), ('Argsort', EX + 'algorithm.hpp')],
  [E(X, 'h_curvature', 'real', ['short', 'long'], 'padding 1..2, 0..6 ranges (thorough 1..3, 0..9); padding 5..6, 10..25 ranges'), E(X, 'h_convolution', 'real', ['short', 'long'], 'kernel width 1, 3, 5; 0..5 (thorough 0..7) values; width 11, 13; 10..20 values'),
   E(X, 'h_curvature_flat', 'real', ['end']), E(X, 'h_argsort', 'real', ['end'], '0..4 (thorough 0..5) values')])
P('C06', 'Edge and surface labels are a non-maximum suppression by curvature',
  'Within a block every edge point has curvature at or above the edge threshold and every surface point at or below the surface threshold; two features of a kind are never within the padding along an unbroken chain of neighbours, the points beside a feature (within the padding and the chain) are marked as its neighbours, and no other label changes. An unlabelled point that meets the threshold loses its label only to an at least as strong feature beside it, edges are chosen before surfaces, and only points inside the padded blocks are labelled.',
  ['inputs', 'configurations'], 'all curvatures and thresholds; every neighbour relation on blocks of up to 4 (thorough 5) points; padding 0..2; one point already labelled; rings of 1 and 2 blocks',
  'The tests label a handful of fixed curvature arrays with all points neighbours.',
  [EX + 'label.hpp', EX + 'fill.hpp', EX + 'algorithm.hpp'], [('EdgeLabel, SurfaceLabel, AssignLabel', EX + 'label.hpp'), ('FillNeighbors', EX + 'fill.hpp')],
  [E(X, 'h_edge_label', 'real', ['feature', 'none', 'two'], '2..4 (thorough 2..5) points, padding 0..2, every neighbour relation', opt=dict(timeout=200)), E(X, 'h_surface_label', 'real', ['feature', 'none', 'two'], 'as for edges', opt=dict(timeout=200)),
   E(X, 'h_edge_label_long', 'real', ['feature', 'two'], '16 points, padding 3..5, one of any curvature, one gap or none'), E(X, 'h_edge_label_many', 'real', ['feature', 'two'], '130 (thorough 200) points, padding 1, one of any curvature'), E(X, 'h_surface_label_many', 'real', ['feature', 'two'], 'as for edges'), E(X, 'h_surface_label_long', 'real', ['feature', 'two'], 'as for edges'), E(X, 'h_assign_label_long', 'real', ['edge', 'surface', 'end'], '3..4 blocks of a ring of 24 points, padding 2..3, one of any curvature'),
   E(X, 'h_assign_label', 'real', ['edge', 'surface', 'end'], '1..2 blocks of 2 (thorough 3) points, padding 1')])
P('C07', 'Label fills stop at the first gap between neighbours and stay in bounds',
  'Filling from the left over [begin, end) sets the label on begin and on every following point up to, but not past, the first consecutive pair that are not neighbours; filling from the right over (begin, end] does the same backwards from end. Filling around a point covers at most padding points on each side. Intervals reaching outside the ring are refused without changing any label.',
  ['inputs'], 'rings of 1..4 (thorough 1..5) points, every neighbour relation, every interval reaching up to two indices outside the ring',
  'The tests fix one relation and a few intervals.',
  [EX + 'fill.hpp'], [('FillFromLeft, FillFromRight, FillNeighbors', EX + 'fill.hpp')],
  [E(X, 'h_fill', 'real', ['left', 'right', 'left-rejected', 'right-rejected'], 'ring 1..4 (thorough 1..5) points'), E(X, 'h_fill_neighbors', 'real', ['end'], 'ring 1..5 (thorough 1..6) points, padding 0..3 (thorough 0..5)')])
P('C08', 'Points behind a range jump are marked occluded on the far side only',
  'Where two neighbouring consecutive points of a ring differ in range by more than the distance threshold, the farther one and the padding points behind it, along the unbroken chain of neighbours, are marked occluded; no other label changes. Both scan directions are treated.',
  ['inputs', 'configurations'], 'all positive ranges and distance thresholds; padding 1..2; rings up to padding+3 (thorough +4) points; every arrangement of neighbour gaps',
  'The tests label two fixed rings.',
  [EX + 'occlusion.hpp', EX + 'fill.hpp'], [('LabelOccludedPoints', EX + 'occlusion.hpp')],
  [E(X, 'h_occlusion', 'real', ['occluded', 'visible'], 'padding 1..2, ring of padding+2..padding+3 (thorough +4) points'), E(X, 'h_occlusion_long', 'real', ['occluded', 'visible'], 'ring of 16 points, padding 4..6, one of any range, one turn or none')])
P('C09', 'Points on surfaces parallel to the beam are marked on two-sided jumps',
  'An interior point of a ring is marked parallel-beam exactly when the ranges of both the previous and the next point differ from its own by more than the given ratio of its own range; the two end points and all other labels are unchanged.',
  ['inputs', 'configurations'], 'all positive ranges and ratios, rings of 2..4 (thorough 2..5) points', 'The test labels one fixed ring.',
  [EX + 'parallel_beam.hpp'], [('LabelParallelBeamPoints', EX + 'parallel_beam.hpp')],
  [E(X, 'h_parallel_beam', 'real', ['parallel', 'other'], 'rings of 2..4 (thorough 2..5) points', opt=dict(narrow=False))])
P('C10', 'One scan in, edge, surface and coloured clouds out',
  'For every scan the node publishes exactly one edge, one surface and one coloured cloud, stamped as the scan and in the feature frame. Edge and surface points are input points with unchanged coordinates, disjoint, within the range limits, and exactly those the labelling steps (edge/surface, then occlusion, then range, then parallel beam, later ones overriding) leave so labelled; the coloured cloud has each point of every usable ring once, in the colour of its label; neither the order of the points in the message nor earlier scans matter. Rings too short for the padding and blocks are left out without disturbing the others, and scans without ring channel or with invalid points shut the node down.',
  ['inputs', 'configurations', 'histories'], 'scans of one ring of 4 (thorough 5) points and a second ring of 1..3 points; ranges symbolic; the thresholds of one labelling stage at a time symbolic; rings of 9 points with 1..3 blocks and padding 1..2; 8 (thorough 120) orders of 5 points',
  'No test runs the node: it needs ROS 2.',
  ['extraction/app/feature_extraction.cpp', EX + 'color_points.hpp', 'extraction/src/color_points.cpp', 'lib/include/lidar_feature_library/convert_point_cloud_type.hpp'], [('FeatureExtraction::Callback', 'extraction/app/feature_extraction.cpp'), ('ColorPointsByLabel, AppendXYZIR', EX + 'color_points.hpp')],
  [E(XA, 'h_node_one_axis', 'real', ['edge', 'surface', 'short-ring'], 'two rings on one axis', opt=dict(timeout=240)), E(XA, 'h_node_two_axes', 'real', ['edge'], 'one ring on two axes', opt=dict(timeout=240)),
   E(XA, 'h_node_blocks', 'real', ['edge', 'surface', 'short-ring'], 'one ring of 9 points, one of any range; padding 1..2, 1..3 blocks, two neighbour angles'), E(XA, 'h_node_default_size', 'real', ['edge', 'surface'], 'one ring of 40 (thorough 60) points, one of any range, padding 5, 6 blocks'), E(XA, 'h_node_any_order', 'real', ['edge', 'surface', 'short-ring'], 'one ring of 5 points on fixed bearings, one of any range, in 8 (thorough all 120) orders, interleaved with a short ring'), E(XA, 'h_node_two_scans', 'real', ['edge', 'surface'], 'one ring of 4 (thorough 5) points after a scan of 3 to 5 points'), E(XA, 'h_program', 'real', ['end'], 'two scans of one ring of 4 points'), E(XA, 'h_node_bad_scan', 'real', ['end']), E(XA, 'h_node_empty', 'real', ['end']),
   E(X, 'h_append', 'real', ['end'], '0..3 or 300 points')])
P('C11', 'Coloured clouds keep positions and map labels and values to colours',
  'Colouring by label gives every point its own position and the colour of its label (white for none, red for edges and surfaces, (255, 63, 0) beside them, (127, 127, 127) out of range, magenta occluded, green parallel beam), and refuses unknown labels; colouring by value keeps the positions and maps each point\'s value, clamped to [min, max], linearly onto the grey levels 0 to 255 for any min < max.',
  ['inputs'], 'up to 3 points with any coordinates and labels; any value and limits in a bounded range', 'No test colours a point.',
  [EX + 'color_points.hpp', 'extraction/src/color_points.cpp'], [('LabelToColor, ValueToColor', 'extraction/src/color_points.cpp')],
  [E(X, 'h_colors', 'real', ['end'], '0..3 or 300 points'), E(X, 'h_value_color', 'real', ['end'], 'limits within [-1000, 1000] at least 0.001 apart, value within [-10000, 10000]'),
   E(X, 'h_colors_by_value', 'real', ['end'], '0..2 points (3 thorough) with any positions, one of them with any value in [-100, 100], two pairs of limits')])
