"""The properties (source of properties.jsonl)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, **kw))


P('C01', 'B-spline basis functions take their textbook values everywhere',
  'For every clamped knot vector and degree, each basis function evaluates at every parameter of the closed knot range to '
  'the Cox-de Boor value: non-negative, zero outside its support, summing to one over all functions, with each parameter '
  'owned by the half-open span to its right and the last knot owned by the last non-empty span. '
  'Outside the knot range every basis function is zero. The non-zero functions reported for a parameter are exactly the '
  'degree + 1 functions of its span.',
  ['inputs'], 'all degrees, all multiplicity patterns of interior knots (0 to degree + 1), all domains (negative, shifted, '
  'scaled), all parameters including every knot and its neighbouring doubles',
  'The tests fix two or three knot vectors and a few parameters each; the corner cases are multiplicity patterns and knots.',
  ['src/baf/b_spline_basis_function.cc', 'src/baf/basis_function.cc', 'src/baf/basis_function_factory.cc',
   'src/baf/zero_degree_b_spline_basis_function.cc', 'src/baf/knot_vector.cc', 'src/spl/parameter_space.h'],
  [('Cox-de Boor recursion with zero for empty quotients', 'src/baf/b_spline_basis_function.cc'),
   ('support test incl. the last knot', 'src/baf/basis_function.cc'),
   ('knot span search', 'src/baf/knot_vector.cc')])
P('C02', 'Basis function derivatives of every order are the true derivatives',
  'For every clamped knot vector, degree and derivative order, the derivative of each basis function at every parameter of '
  'the closed knot range is the derivative of the polynomial piece of the span that owns the parameter. Orders above the '
  'degree and parameters outside the range give zero.',
  ['inputs'], 'as C01, all derivative orders from 1 to above the degree',
  'Tests cover degree 2 and orders 1-2 of one knot vector; errors in higher orders or at repeated knots do not show.',
  ['src/baf/b_spline_basis_function.cc', 'src/baf/basis_function.cc', 'src/spl/parameter_space.h'],
  [('derivative recursion', 'src/baf/b_spline_basis_function.cc')])
P('C03', 'A B-spline evaluates to its control points blended by the basis functions',
  'For every parametric dimension, degree, clamped knot vectors and control points, evaluating a B-spline or any mixed '
  'partial derivative at a parameter of the closed domain gives, for each requested point coordinate in the requested order, '
  'the tensor-product sum of control points and basis function (derivative) values. A parameter outside the domain in any '
  'direction is rejected with a range error.',
  ['inputs', 'configurations'], 'parametric dimensions 1-4, all degrees and knot vectors, all derivative multi-orders, all '
  'parameters incl. knots, corners and end points, all subsets and orders of point coordinates',
  'Tests evaluate a handful of curves and surfaces with equal sizes per direction; index order and stride mistakes need unequal '
  'sizes in three or more directions.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/util/multi_index_handler.h'],
  [('sum over the non-zero functions', 'src/spl/spline.h, src/spl/b_spline.h'),
   ('range check', 'src/spl/parameter_space.h'), ('control point addressing', 'src/spl/physical_space.h')])
P('C04', 'A NURBS evaluates to the quotient of weighted sums, derivatives included',
  'For every parametric dimension, degree, clamped knot vectors, control points and positive weights, evaluating a NURBS or any '
  'mixed partial derivative gives the value or derivative of the rational map (weighted sum of control points divided by sum of '
  'weights), whatever the weights; with equal weights it equals the B-spline. A parameter outside the domain is rejected with a '
  'range error.',
  ['inputs', 'configurations'], 'parametric dimensions 1-4, all degrees, knot vectors, weights, derivative multi-orders, parameters',
  'Rational derivatives of mixed and higher order follow a recursion over all lower orders; the tests check orders 1-2 of few points.',
  ['src/spl/nurbs.h', 'src/spl/weighted_physical_space.h', 'src/spl/spline.h'],
  [('generalised quotient rule', 'src/spl/nurbs.h'), ('homogeneous control points', 'src/spl/weighted_physical_space.h')])
P('C05', 'Knot insertion and refinement never change the geometry',
  'Inserting a knot once or several times (up to a total multiplicity of degree + 1), or refining with a list of knots, in any '
  'direction of any B-spline or NURBS leaves the mapped point of every parameter unchanged. It adds exactly the requested knots '
  'in that direction and one control point row per knot, changes neither the degrees nor the other directions, and this holds '
  'after any history of insertions.',
  ['inputs', 'histories'], 'all splines, directions, knots (new and present), multiplicities, sequences of insertions',
  'Tests insert into a few fixed splines and compare a few points.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h'],
  [('Boehm insertion', 'src/spl/b_spline.h, src/spl/nurbs.h'), ('control point insertion', 'src/spl/physical_space.h')])
P('C06', 'Knot removal stays within its tolerance and refuses everything else',
  'Removing a knot moves no point of the spline by more than the given tolerance per removed knot (a small constant factor for '
  'NURBS), reports exactly how many times the knot was removed, and removes it from the knot vector that often together with one '
  'control point row each. A removal that is refused - in particular of a knot that is absent, of an end knot, or beyond the '
  'tolerance - leaves the spline exactly as it was. A knot that can be removed exactly, for example because it was just inserted, '
  'is removed.',
  ['inputs', 'histories'], 'all splines, directions, knots, tolerances, repetition counts, after any history of insertions and removals',
  'Tests remove knots of a few fixed splines; whether a refusal or a removal is right depends on the whole spline.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h',
   'src/baf/knot_vector.cc'],
  [('removability test and new control points', 'src/spl/b_spline.h, src/spl/nurbs.h'), ('removal loop', 'src/spl/spline.h')])
P('C07', 'Degree elevation raises the degree by one and keeps the geometry',
  'Elevating the degree in any direction of any continuous B-spline or NURBS (degree at least 1) raises that degree by exactly one, keeps every distinct knot '
  'with at least one more multiplicity, leaves the other directions alone and keeps the mapped point of every parameter. This '
  'holds after any history of insertions and elevations.',
  ['inputs', 'histories'], 'all splines whose interior multiplicities do not exceed the degree, directions, histories',
  'Tests elevate a few curves and surfaces once and compare with an equality check that accepts NaN.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h'],
  [('Bezier decomposition, elevation, knot removal', 'src/spl/spline.h')])
P('C08', 'Degree reduction keeps its tolerance or refuses and changes nothing',
  'Reducing the degree in any direction of a continuous B-spline or NURBS either reports success, lowers the degree by exactly one '
  'and moves no point by more than the tolerance (times a conditioning factor for NURBS), or reports failure and leaves the degree, the '
  'knots and the geometry as they were. It succeeds whenever the spline is in truth of lower degree, for example after an elevation, and never '
  'reduces a linear spline.',
  ['inputs', 'histories'], 'all splines whose interior multiplicities do not exceed the degree, directions, tolerances, histories of '
  'elevations, insertions and reductions',
  'Tests reduce a few elevated splines; a wrong error bound or a wrong refusal needs other shapes and histories.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h'],
  [('per-segment reduction with error test', 'src/spl/spline.h'), ('undo on failure', 'src/spl/spline.h')])
P('C09', 'Subdividing a spline gives two pieces that together are the original',
  'Splitting any B-spline or NURBS at any interior parameter in any direction yields two valid splines, of the same degrees, whose '
  'domains are the two parts of the original domain in that direction and which map every parameter to the same point as the '
  'original; the original keeps its geometry. This holds for repeated splitting of pieces.',
  ['inputs', 'histories'], 'all splines, directions, split parameters (new and existing knots of any multiplicity), repeated splitting',
  'Tests split one curve and one surface at one parameter.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h'],
  [('knot insertion up to multiplicity degree + 1 and splitting', 'src/spl/b_spline.h, src/spl/nurbs.h')])
P('C10', 'Copies and derived splines are independent of their source',
  'A spline obtained from another one - by copy construction, assignment (also chained and to itself), from the same '
  'knot vector objects passed to a second construction, as a piece of a subdivision, or as a NURBS with replaced control points - is equal to it '
  '(or to its piece) at first, and from then on no operation on one of them changes any knot, degree, control point or weight of another.',
  ['histories', 'configurations'], 'all ways of obtaining a second handle, all interleavings of insert, remove, elevate, reduce and subdivide on the handles',
  'Aliasing shows only after the right operation on the right handle; the tests copy once and mutate once.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h'],
  [('deep copies of the spaces', 'src/spl/b_spline.h, src/spl/nurbs.h'), ('deep copies of the knot vectors', 'src/spl/parameter_space.h')])
P('C11', 'Every history of spline operations leaves a consistent spline',
  'After any sequence of knot insertions, removals, degree elevations, reductions and subdivisions, a spline has sorted clamped '
  'knots, as many control points per direction as knots - degree - 1, finite coordinates and (unless a removal or reduction with a coarse tolerance lost them) positive weights. Its coordinate, point '
  'and weight accessors agree, it behaves like a spline newly built from its own data, and its geometry is that of the initial spline up to the tolerances of the removals and reductions.',
  ['histories', 'inputs'], 'all operation sequences up to a depth from all initial splines in the bounds',
  'Tests apply operations mostly one at a time; inconsistent counts show only when the next operation uses them.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h',
   'src/spl/weighted_physical_space.h'],
  [('point counts per direction', 'src/spl/physical_space.h'), ('knots and degrees', 'src/spl/parameter_space.h')])
P('C12', 'Only well-formed splines can be constructed',
  'Constructing a parameter space, B-spline or NURBS succeeds exactly if every knot vector has at least 2 * degree + 2 knots with the '
  'first and last degree + 1 knots equal, the number of control points is the product over the directions of knots - degree - 1, all control points have '
  'the same dimension, and there is one weight per control point; everything else is rejected with an exception. '
  'A constructed spline returns the knots, degrees, points and weights it was given.',
  ['inputs', 'configurations'], 'all degrees, sorted knot sequences, control point and weight counts, positions of the defect, one to three directions, all constructors',
  'Tests try one wrong count per constructor; a validation that looks at the wrong direction or misses one end does not show.',
  ['src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h'],
  [('knot vector validation', 'src/spl/parameter_space.h'), ('control point validation', 'src/spl/physical_space.h'), ('weight validation', 'src/spl/weighted_physical_space.h')])
P('C13', 'A knot vector behaves as a sorted multiset of parameters',
  'After any sequence of insertions and removals a knot vector is exactly the sorted multiset of its knots: inserting adds one '
  'occurrence, removing takes one occurrence of that knot and does nothing for an absent one; multiplicity, span index, number of different knots, containment test, '
  'comparison, copies and the list of elements (non-empty spans) agree with it. The knot vector made by averaging parameters is clamped at the first and last of them with the averages in between.',
  ['histories', 'inputs'], 'all knot vectors, all sequences of insertions and removals, all query parameters',
  'Tests query one or two vectors; end knots, repeated knots and absent knots after several operations are combinations.',
  ['src/baf/knot_vector.cc', 'src/baf/knot_vector.h', 'src/util/element_generator.h', 'src/util/element.h'],
  [('insertion and removal', 'src/baf/knot_vector.cc'), ('span search', 'src/baf/knot_vector.cc'), ('elements', 'src/util/element_generator.h')])
P('C14', 'Multi-index iteration visits every grid index once, in storage order',
  'For every grid size the multi-index handler counts through all index tuples in storage order (first index fastest), wraps around after the last one and before the first one, and '
  'its index tuple, one-dimensional index, complementary index and setters agree in every state.',
  ['inputs', 'histories'], 'all grids, all reachable index states and all transitions (increment, decrement, set)',
  'Everything that loops over control points uses it; the tests step through a few indices of one grid.',
  ['src/util/multi_index_handler.h'], [('increment, decrement, conversion', 'src/util/multi_index_handler.h')])
P('C22', 'Comparing splines is exact up to the tolerance and never accepts a difference',
  'Comparing two splines for equality holds exactly if degrees, knots, control points and weights agree within the tolerance, and is symmetric. '
  'Geometric comparison holds for splines that map the same parameters to the same points (refined, elevated, reweighted or '
  'embedded copies) and fails for splines that differ by more than the tolerance anywhere on the compared grid or are defined on different parameter ranges; neither ever accepts NaN.',
  ['inputs'], 'all pairs of a spline and a copy with one perturbed control point, weight or knot, a shifted domain or a different representation, both argument orders',
  'A comparison that overlooks one direction, the last point or NaN makes all other tests pass vacuously.',
  ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/util/numeric_settings.h'],
  [('AreEqual', 'src/spl/b_spline.h, src/spl/nurbs.h'), ('AreGeometricallyEqual', 'src/spl/spline.h')])
P('C33', 'Point, vector and parameter arithmetic is componentwise, without side effects',
  'For every number of coordinates the sum, difference, multiple, norm and transformation of control points, the difference, distance, scalar product, cross product and multiple of vectors, the '
  'difference of knot vectors and the arithmetic and order of parameters are the textbook results, and no operand is changed. Selecting entries of a list by position returns exactly these in the given order and refuses positions '
  'outside of it. The dimension and kind of a spline in a container of any type are reported rightly and everything that is no spline is refused.',
  ['inputs'], 'all pairs of small vectors over a set of values, all position lists, all kinds of splines',
  'Everything else is built on these; tests check one example each.',
  ['src/baf/control_point.cc', 'src/util/vector_utils.h', 'src/util/named_type.h', 'src/util/any_casts.h', 'src/baf/knot_vector.cc'],
  [('control points', 'src/baf/control_point.cc'), ('vectors and selection', 'src/util/vector_utils.h'), ('kinds of splines', 'src/util/any_casts.h')])
P('C23', 'Projecting a point finds the closest point of the curve or surface',
  'Projecting a point on a curve or surface always returns a parameter inside the domain of every direction. For straight lines and rectangles '
  'it is the parameter of the closest point, for points on, beside and beyond them; for points beside the middle of an edge of a polygonal chain or folded surface, and for gently curved regular ones and points close to them the returned point is '
  'as close as any. This does not depend on where the parameter ranges lie.',
  ['inputs', 'configurations'], 'all lines, rectangles and gently curved curves and surfaces in the bounds, all parameter ranges, all points on, beside and beyond',
  'Tests project a few points on splines over [0,1]; wrong ranges or directions need other domains.',
  ['src/spl/projection.h', 'src/util/vector_utils.h', 'src/util/element_generator.h'],
  [('start value and Newton iteration', 'src/spl/projection.h'), ('clamping', 'src/spl/projection.h')])
P('C24', 'Swept and translational surfaces follow their two curves',
  'A translational surface maps (u,v) to trajectory(u) + section(v), with the degrees and knots of the two curves. A swept surface has, at equally '
  'spaced parameters of the trajectory, the section placed at the trajectory point, scaled and turned into the local frame (tangent, and for a straight trajectory any consistent orthogonal normal), '
  'with weights the products of the two weights and knots by averaging over the range of the trajectory.',
  ['inputs', 'configurations'], 'all trajectories (straight in every direction, clearly curved), sections, weights, parameter ranges, numbers of sections, scalings',
  'Tests check one translational surface and one sweep over [0,1].',
  ['src/spl/surface_generator.cc', 'src/spl/surface_generator.h', 'src/baf/knot_vector.cc', 'src/baf/control_point.cc'],
  [('translational surface', 'src/spl/surface_generator.cc'), ('frames and transformation', 'src/spl/surface_generator.cc')])
P('C25', 'The square generator parametrises the square',
  'For every degree from 1 and every number of knots from 2 * degree + 2 the generated square is a valid B-spline surface over [0,1]x[0,1] with equally spaced interior knots, '
  'an equally spaced control grid over [-1,1]x[-1,1], whose four edges lie on the four sides of the square and which is injective.',
  ['inputs'], 'all degrees and numbers of knots in the bounds', 'The tests check two or three squares.',
  ['src/spl/square_generator.cc'], [('knots and control grid', 'src/spl/square_generator.cc')])
P('C26', 'Random splines are valid and within their limits whatever is drawn',
  'Whatever the random draws yield, a random B-spline or NURBS is well-formed and can be evaluated, has degrees between 1 and the given maximum, the given parameter limits in '
  'every direction with equally spaced interior knots, the given number of coordinates within [-5,5] and, for NURBS, positive weights.',
  ['inputs', 'schedules'], 'all outcomes of the random draws for all limits, maximum degrees, point dimensions and parametric dimensions in the bounds',
  'Tests see a handful of draws; the extreme ones (no interior knot, lowest degree, smallest weight) are rare.',
  ['src/spl/random_spline_utils.h', 'src/spl/random_b_spline_generator.h', 'src/spl/random_nurbs_generator.h', 'src/util/random.h'],
  [('random knots, degrees, points, weights', 'src/spl/random_spline_utils.h')])
P('C15', 'XML files hold exactly the splines written to them',
  'Writing any list of B-splines and NURBS of one to four parametric dimensions (points of one to four coordinates) to an XML file and reading it back gives the same list: same order, kind (rational or not), degrees, '
  'knots, control points in the same places and weights, up to the six decimals the file stores; writing does not change the splines. A well-formed XML file by anybody else (other '
  'white space, line ends, further control point variables in front of the coordinates) is read as what it says; objects that are no splines are refused.',
  ['inputs', 'configurations'], 'all lists of splines of all dimensions, degrees, point dimensions, kinds and value ranges in the bounds, all layouts',
  'Tests read and write two fixed files; a swapped direction, a lost last number or a mixed-up list needs other shapes.',
  ['src/io/xml_reader.cc', 'src/io/xml_reader_utils.h', 'src/io/xml_writer.cc', 'src/io/xml_writer_utils.h', 'src/util/string_operations.h'],
  [('reader', 'src/io/xml_reader_utils.h'), ('writer', 'src/io/xml_writer_utils.h')])
P('C16', 'IRIT files hold exactly the splines written to them',
  'Writing any list of B-splines and NURBS of one to three parametric dimensions to an IRIT file and reading it back gives the same list: same order, kind, degrees, knots, weights and control points '
  '(the file stores rational points multiplied by their weight and six decimals); writing does not change the splines. A well-formed IRIT file by anybody else (other indentation, tabs, line ends, '
  'positions of the closing brackets) is read as what it says; four-dimensional splines and objects that are no splines are refused.',
  ['inputs', 'configurations'], 'all lists of splines of all dimensions, degrees, point dimensions, kinds and value ranges in the bounds, all layouts',
  'Tests use one file; point order, weights and separators of other shapes are not seen.',
  ['src/io/irit_reader.cc', 'src/io/irit_reader_utils.h', 'src/io/irit_writer.cc', 'src/io/irit_writer_utils.h', 'src/util/string_operations.h'],
  [('reader', 'src/io/irit_reader_utils.h'), ('writer', 'src/io/irit_writer_utils.h')])
P('C17', 'IGES files hold exactly the curves and surfaces written to them',
  'Writing any list of B-spline and NURBS curves and surfaces to an IGES file gives a well-formed file (80-column lines, section letters and sequence numbers, directory entries that point to their parameter data, '
  'correct section counts) and reading it back gives the same list: same order, kind, degrees, knots, weights and control points (padded with zeros to three coordinates) to 13 '
  'significant digits; writing does not change the splines. A well-formed IGES file by anybody else (other line breaks in the data, exponents, unrelated entities) is read as what it says; volumes and objects that are no splines are refused.',
  ['inputs', 'configurations'], 'all lists of curves and surfaces of all degrees, point dimensions, kinds, value ranges and sizes in the bounds, all layouts',
  'Tests use two files; the wrapping of numbers over lines and the pointers between the sections depend on every count.',
  ['src/io/iges_reader.cc', 'src/io/iges_reader.h', 'src/io/iges_writer.cc', 'src/io/iges_writer.h', 'src/util/string_operations.h'],
  [('parameter data', 'src/io/iges_writer.cc'), ('directory entries', 'src/io/iges_reader.cc')])
P('C18', 'VTK files sample every spline on its whole parameter grid',
  'A VTK file of curves, surfaces and volumes contains, for every spline in order, its values on the equidistant parameter grid (first and last knot included, points of fewer than three coordinates padded with zeros) to six significant digits, and the '
  'line, quad and hexahedron cells that connect neighbouring grid points in VTK vertex order with global point numbers, with matching counts and cell types. Scattering that does not fit the list of splines and four-dimensional splines are refused.',
  ['inputs', 'configurations'], 'all lists of splines of one to three dimensions, parameter ranges and numbers of cells per direction in the bounds',
  'Tests look at the counts and a few lines; offsets of the second spline, unequal cell counts and the last sample on other ranges are not seen.',
  ['src/io/vtk_writer.cc', 'src/io/vtk_writer_utils.h'],
  [('points', 'src/io/vtk_writer_utils.h'), ('cells', 'src/io/vtk_writer.cc')])
P('C19', 'Converting a file writes exactly the selected splines in the format asked for',
  'Converting an IGES, IRIT or XML file to IGES, IRIT, VTK or XML writes exactly the requested positions, in the requested order, that exist and whose dimension the output format can hold (all of them without positions), each with the scattering '
  'entry given for it, and returns these positions; a converter can be used again and again. Only the ending of a file name decides the format; other endings, a missing input and missing scattering are errors.',
  ['inputs', 'histories', 'configurations'], 'all pairs of formats, all lists of splines, all position lists (repeated, unordered, out of range, of too high dimension), all sequences of conversions in the bounds',
  'Tests convert each pair once with at most one position list.',
  ['src/io/io_converter.cc', 'src/io/io_converter.h', 'src/util/any_casts.h', 'src/util/vector_utils.h', 'src/util/string_operations.h'],
  [('selection', 'src/io/io_converter.cc'), ('scattering', 'src/io/io_converter.cc')])
P('C20', 'Every decimal number in a file is read as its value',
  'The conversion of text to numbers returns the value (to 14 significant digits) for every decimal number with or without sign, decimal point and exponent, however it was printed, and rejects every text that is not one; lists of numbers separated by '
  'commas, semicolons or white space are split into exactly their entries.',
  ['inputs'], 'all texts over the characters of numbers up to a length, all printed forms of a set of values, all lists of tokens in the bounds',
  'Tests convert about ten texts; the rest of the grammar is not seen.',
  ['src/util/string_operations.h'], [('StringToDouble', 'src/util/string_operations.h'), ('DelimitedStringToVector', 'src/util/string_operations.h')])
P('C21', 'Text helpers follow their definition for every text',
  'The tests for a prefix or suffix hold exactly if the text starts or ends with the given one, trimming removes exactly the leading and trailing white space and brackets, splitting returns exactly the non-empty parts.',
  ['inputs'], 'all texts over small alphabets up to a length', 'Tests use a handful of texts; file formats and log files are recognised with these helpers.',
  ['src/util/string_operations.h'], [('StartsWith, EndsWith, trim, split', 'src/util/string_operations.h')])
P('C27', 'A damaged file is rejected or yields valid splines, and never crashes a reader',
  'For every XML, IRIT or IGES file that was cut off at any byte, or in which a number or word was removed, repeated or replaced, reading it terminates without reading or writing out of bounds and either throws an exception or returns splines that are '
  'consistent and can be evaluated. What a cut off file still yields is a prefix of the original list, unchanged.',
  ['inputs', 'crash_points'], 'all truncation points (as left by a crash while writing) and all single-word damages of a set of files in the bounds',
  'Tests read intact files and one with a wrong header.',
  ['src/io/xml_reader.cc', 'src/io/xml_reader_utils.h', 'src/io/irit_reader.cc', 'src/io/irit_reader_utils.h', 'src/io/iges_reader.cc', 'src/util/string_operations.h', 'src/spl/physical_space.h'],
  [('reading of counts and numbers', 'src/io/iges_reader.cc, src/io/irit_reader_utils.h, src/io/xml_reader_utils.h')])
P('C28', 'A write that fails is reported',
  'If the file cannot be opened or the medium is full after any number of bytes, every writer throws an exception; if a writer returns, the file is complete.',
  ['crash_points', 'inputs'], 'all numbers of bytes after which writing fails, all writers, a set of lists of splines; paths that cannot be opened',
  'Tests never make a write fail.',
  ['src/io/xml_writer.cc', 'src/io/irit_writer.cc', 'src/io/iges_writer.cc', 'src/io/vtk_writer.cc'],
  [('opening and closing of the file', 'src/io/*_writer.cc')])
P('C29', 'The command line converters do what their log file says and record it',
  'Each of the nine converters reads input, output, options and scattering from the log file whatever the order of these entries and with or without blank lines between them, writes exactly the selected splines (all, or the listed positions that exist and fit the output format, in that order), '
  'appends one entry that names these positions and files, leaves the rest of the log as it was, and can be run again with the extended log. If the log, input or output cannot be used, or arguments are missing, it ends with an error and appends nothing.',
  ['inputs', 'histories', 'configurations'], 'all nine programs, all lists of splines, position lists, orders of the entries and layouts in the bounds, two runs in a row',
  'Tests run each program once with all splines.',
  ['src/io/executables/converter_log.cc', 'src/io/executables/converter_log.h', 'src/io/executables/iges_to_irit.cc', 'src/io/executables/iges_to_vtk.cc', 'src/io/executables/iges_to_xml.cc', 'src/io/executables/irit_to_iges.cc', 'src/io/executables/irit_to_vtk.cc', 'src/io/executables/irit_to_xml.cc', 'src/io/executables/xml_to_iges.cc', 'src/io/executables/xml_to_irit.cc', 'src/io/executables/xml_to_vtk.cc'],
  [('parsing of the log', 'src/io/executables/converter_log.cc'), ('selection', 'src/io/executables/converter_log.cc')])
P('C30', 'Isogeometric elements carry the basis functions of the spline',
  'For every NURBS curve, surface and volume with a regular geometry and every Gauss rule, the isogeometric helpers list exactly the non-empty knot spans as elements, find the element of every parameter, and give at every integration point of every '
  'element the rational basis functions that live there, numbered by their control points, with their true parametric and physical derivatives, weight and Jacobian determinant. The rules integrate polynomials of degree 2 n - 1 exactly. '
  'The boundary splines are the restrictions to the sides.',
  ['inputs', 'configurations'], 'all degrees, knot multiplicities, parameter ranges, weights and point dimensions in the bounds, all elements, all rules with one to five points',
  'Tests use one spline with unit weights and equal degrees, for which wrong quotient rules and mixed up directions cancel.',
  ['example/iga/src/basis_function_handler.h', 'example/iga/src/connectivity_handler.h', 'example/iga/src/element_generator.h', 'example/iga/src/mapping_handler.h', 'example/iga/src/linear_equation_assembler.h', 'example/iga/src/itg/integration_rule.h'],
  [('rational basis functions', 'example/iga/src/basis_function_handler.h'), ('numbering', 'example/iga/src/connectivity_handler.h')])
P('C31', 'Poisson problems are assembled, solved and written as stated',
  'The assembled matrices and right hand sides (volume source, conductivity, Neumann and Dirichlet sides) are the integrals of the rational basis functions by the given Gauss rule, the steady and time dependent solutions solve these systems at every time step '
  'up to the end time, in whatever order and how often solutions of one problem are asked for, and the solution written to a VTK file is its value on the grid of the spline; a failed write is reported.',
  ['inputs', 'histories', 'crash_points'], 'all geometries in the bounds, all sequences of requests up to depth three, all grids, all points at which the disk is full',
  'Tests solve one problem once.',
  ['example/iga/src/poisson_problem.h', 'example/iga/src/linear_equation_assembler.h', 'example/iga/src/element_integral_calculator.h', 'example/iga/src/bdf_handler.h', 'example/iga/src/solution_spline.h', 'example/iga/src/solution_vtk_writer.h'],
  [('assembly', 'example/iga/src/element_integral_calculator.h'), ('time stepping', 'example/iga/src/poisson_problem.h')])
P('C32', 'Requests outside the parameter range are refused and change nothing',
  'Knot insertion, refinement and subdivision at or beyond the ends of the parameter range (also with infinite or undefined parameters) and evaluation outside of it throw an exception; removing a knot that does not exist, an end knot or a parameter '
  'outside the range reports zero removals; reducing a degree of one or zero reports failure. A refused request leaves the spline as it was (a list of knots that is refused in part at least keeps the geometry), reads no memory it should not, and all later valid requests '
  'work as if it had not been made.',
  ['inputs', 'histories'], 'all degrees and directions in the bounds, all kinds of invalid requests, all sequences of two of them and of valid operations around them',
  'The test suite only evaluates outside the range; it never asks for an operation there, or for a second operation afterwards.',
  ['src/spl/spline.h', 'src/spl/parameter_space.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h'],
  [('refusal of knots', 'src/spl/spline.h'), ('range check of the evaluation', 'src/spl/parameter_space.h')])
PROPS.sort(key=lambda p: p['id'])
