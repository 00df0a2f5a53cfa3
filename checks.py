"""Which harness decides which property, what it is linked with, and the bounds it enumerates."""
LIBS = {
    'baf': ['src/baf/*'],
    'spl': ['src/spl/*'],
    'io': ['src/io/*', 'external/pugixml/pugixml.cpp'],
}
ASSUMPTIONS = [
    'the library is sequential: a history is a sequence of calls on one thread',
    'g++ 13 -O1 with address and undefined-behaviour sanitizers and libstdc++ assertions; IEEE doubles',
    'results compare equal up to 1e-10 relative to the sum of the magnitudes of the summed terms unless stated',
]
ENUM = 'bounded-exhaustive execution of the real code over the whole input space within bounds, checked against an independent reference model'
SEQ = 'stateless model checking: every operation sequence up to a depth is replayed on the real code and every reached state is checked against a reference model'
SHAPES = ('curves of degree 1-4 (thorough 5), two interior knots of every multiplicity up to 2, two domains, four shapes (generic, '
          'Greville-linear, constant, zigzag), 1-3 coordinates, rational and not; curves with six interior knots; curves of degree 3-5 with '
          'multiplicities up to the degree and of degree 6-7; very unequal and small weights, large coordinates; surfaces of all '
          'degrees 1-3 x 1-3 in three knot patterns, narrow ones; volumes of all degrees 1-2, unequal ones; four-dimensional splines')
CHECKS = {
    'C01': dict(src=['basis.cc'], libs=['baf'], technique=ENUM, bounds=
                'degrees 0-5 (thorough 0-7), all multiplicities 0..p+1 of 3 interior knots, 5 domains; clustered knots at distances 1e-5 to 1e-9; degrees up to 9 with few knots; every knot, both '
                'neighbouring doubles, p+2 points per span, 4 points outside'),
    'C02': dict(src=['basis.cc'], libs=['baf'], technique=ENUM, bounds='as C01, derivative orders 1..p+2'),
    'C03': dict(src=['eval.cc'], libs=['baf'], technique=ENUM, bounds=
                'curves of degree 0-4 (thorough 5) with all multiplicities of 3 interior knots on 3 domains, degrees 5-8, 17 and 40 knots, clustered knots, scaled coordinates, up to 7 coordinates; surfaces of all degrees '
                '0-3 x 0-3, narrow grids; volumes of all degrees 0-2; 16 four-dimensional splines; all derivative multi-orders up to p+2 (curves), '
                '3 (surfaces), 2 (volumes), 1 (4D) and some mixed ones of total order up to 5; coordinates in every order; every knot, neighbouring doubles, p+1 points per span, all corners, 4 points outside '
                'per direction'),
    'C04': dict(src=['eval.cc'], libs=['baf'], technique=ENUM, bounds=
                'as C03 with three weight patterns (mixed 0.25-3, constant, 1e-3..50), derivative orders up to min(p+1,4) (curves), 2 '
                '(surfaces and volumes), 1 (4D) and some mixed ones of total order up to 5; NURBS with replaced control points; homogeneous control points'),
    'C05': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; insertion of every interior knot and 2 new parameters with every '
                'admissible multiplicity, refinement with sorted, reversed, repeated and empty lists, insertion at distances 1e-6 and 1e-10 from knots; evaluations before and after every operation; sequences up to depth 3 (curves; 2 for the largest), '
                '2 (surfaces), 1 (volumes); thorough one deeper'),
    'C06': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; insertions and removals of every interior knot, absent '
                'parameters and end knots with tolerances 1e-16 to 1e6 and every repetition count up to multiplicity + 1; roots in which one coordinate or weight of one control point spoils the exactness; depth 2-3 (thorough 4)'),
    'C07': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; elevations interleaved with insertions; depth 3 (thorough 4) curves, '
                '2-3 surfaces, 2 volumes'),
    'C08': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; elevations, insertions and reductions with tolerances 1e-7 to 5; roots in which one coordinate or weight of one control point spoils the exactness; '
                'depth 3-4 (thorough 5) curves, 3 surfaces, 2 volumes'),
    'C09': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; splitting at every interior knot and 2 new parameters, both pieces '
                'and the original split again, splits at distances 1e-6 and 1e-10 from knots; evaluations in between; depth 2 (thorough 3)'),
    'C10': dict(src=['copies.cc'], libs=['baf'], technique=SEQ, bounds=
                'curves of degree 1-3, surfaces of degree 1-2, volumes of degree 1-2, rational and not; seven ways of getting a second (and third) '
                'handle; every interleaving of insert, remove, elevate, reduce and subdivide on all handles and directions up to depth 2-3 (curves; '
                'thorough 4), 2 (surfaces; 3), 1 (volumes; 2)'),
    'C11': dict(src=['ops.cc'], libs=['baf'], technique=SEQ, bounds=SHAPES + '; mixed insert/remove/elevate/reduce/subdivide; depth 3 '
                '(2 for the largest curves and surfaces, 1 for volumes), thorough one deeper'),
    'C12': dict(src=['base.cc'], libs=['baf'], technique=ENUM, bounds=
                'degrees 0-3 (thorough 4), every non-decreasing knot sequence over four values of length 0-9 (11), every control point and weight '
                'count from 0 to two too many, a control point of wrong dimension at every position, end knots that differ by 1e-5 and 1e-9, one bad direction out of two or three; four ways of construction'),
    'C13': dict(src=['base.cc'], libs=['baf'], technique=SEQ, bounds=
                '108 knot vectors x 3 domains, clustered and many knots, every insert/remove sequence up to depth 4 (3 on the other domains; thorough 5) with queries at all knots and neighbouring doubles before and after every step, compared with a multiset; averaging for degrees '
                '1-4; elements of surfaces of degrees 0-3'),
    'C14': dict(src=['base.cc'], libs=['baf'], technique='explicit-state exploration of the whole state space of the real index iterator against its specification',
                bounds='1-4 dimensions, all lengths up to 4 (thorough 6) per dimension: every state and every transition'),
    'C22': dict(src=['base.cc'], libs=['baf'], technique=ENUM, bounds=
                'curves of degree 1-3 on three domains, surfaces, volumes, rational and not; every single control point coordinate, weight and interior knot '
                'perturbed above and below the tolerance; corner points moved by just more and just less than the tolerance; shifted and longer domains; refined, elevated, reweighted and embedded copies; both argument orders'),
    'C33': dict(src=['base.cc'], libs=['baf'], technique=ENUM, bounds=
                'all pairs of vectors and points of 1-2 coordinates over five values, 3 over four (thorough five), 4 over three (four), 6 over two; all single entries and full matrices; all position lists of length up to 3 (4) over -1..n for lists of up to 4 entries; all kinds of splines of 1-4 dimensions and 1-4 coordinates'),
    'C23': dict(src=['geo.cc'], libs=['baf', 'spl'], technique=ENUM, bounds='lines of degree 1-3 with every multiplicity of 2 interior knots in 1-3 coordinates and 4 directions; rectangles of degrees 1-2 in 3 orientations, evenly and unevenly parametrised; gently curved C1 curves (3 heights per control point; quick takes every 4th/17th code) and height fields; all self-avoiding chains of up to 5 (thorough 6) unit edges in 2 and 4 (5) in 3 coordinates and all surfaces folded along chains of up to 4 edges, degrees 1-3 (quick one of these); 4 domains per direction (all pairs), rational and not; points on, off and beyond the shape (thorough: all of them at all offsets)'),
    'C24': dict(src=['geo.cc'], libs=['baf', 'spl'], technique=ENUM, bounds='translational: all degrees 1-3 x 1-3, 1-3 coordinates, 2 domains, 2 weight patterns; swept: straight trajectories in all 26 grid directions from 3 origins, 20 (thorough 40) clearly curved ones of degree 2-3, 3 domains, 2-6 (8) sections, constant and varying scaling'),
    'C25': dict(src=['geo.cc'], libs=['baf', 'spl'], technique=ENUM, bounds='degrees 1-5 (thorough 6), up to 6 (8) interior knots'),
    'C26': dict(src=['geo.cc'], libs=['baf', 'spl'], technique='exhaustive enumeration of all random choices (the distributions are replaced by a controlled nondeterministic chooser) on the real generators', bounds='max degree 1-5 (thorough 7) curves, 1-3 (4) surfaces, 1-2 (3) volumes, 1-4 coordinates, 3 ranges, rational and not: every outcome of every integer draw and extreme/middle outcomes of the first real draws'),
    'C15': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='all degrees 1-4 (curves), 1-3 (surfaces), 1-2 (volumes; thorough 3), 1 (4D; 2), 4 knot patterns and domains, 1-4 coordinates, rational and not, 3 value ranges; all pairs and a third (thorough all) of the triples of 8 kinds; 9-101 control points; lists of 9-101 splines; unit, constant and extreme weights, zeros, tiny and huge values, closed, planar and discontinuous splines; one reader and writer object used for several files; 6 layouts of foreign files; two round trips each'),
    'C16': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='as C15 (special data, long lists, reuse included) with up to 3 parametric dimensions; all pairs and triples of 6 kinds; 5 layouts of foreign files; two round trips each'),
    'C17': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='all degrees 1-4 (curves), 1-3 (surfaces), 4 knot patterns, 1-3 coordinates, rational and not, 3 value ranges; all pairs and triples of 4 kinds; 9-101 control points; special data, long lists and reuse as C15; 3 layouts of foreign files; two round trips each; every line, pointer and count of the file checked'),
    'C18': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='curves with 1-5, surfaces and volumes with 1-3 cells per direction in all combinations (quick takes a fixed fraction of shapes and combinations, thorough all); lists of 2-3 splines of 6 kinds; 168 parameter ranges x 12 cell counts; 6 kinds of wrong scattering'),
    'C20': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='216 mantissas x 13 exponents; 23 values in 80 printed forms; all strings of length up to 5 (thorough 6) over 11 characters; all lists of up to 4 (5) of 7 tokens in 7 layouts'),
    'C21': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='all texts of length up to 5 (thorough 6) x all patterns up to 3 over 3 characters; all texts of length up to 6 (7) over 5 characters and up to 5 (6) over 8 characters with every kind of white space; every byte'),
    'C27': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='11 small files in 3-5 layouts: every truncation point; every word removed, repeated, replaced by each of a set of values, in the first layout (thorough all)'),
    'C28': dict(src=['io.cc'], libs=['baf', 'io'], technique=ENUM, bounds='4 writers x 3 small lists: every byte count at which the disk is full; one list larger than the stream buffers (quick every 41st byte); missing directory, directory, full device'),
    'C19': dict(src=['conv.cc'], libs=['baf', 'io'], technique=ENUM, bounds='3 x 4 formats, all lists of up to 2 (XML; thorough 3) or 3 splines of 4-8 kinds, position lists of length up to 2 (thorough 3) over -1..n, histories of 4 conversions with one converter, 18 file name patterns x 4 endings; all lists of up to 4 splines of 8 kinds x 6 dimension limits'),
    'C29': dict(src=['conv.cc'], libs=['baf', 'io'], tools='src/io/executables', technique=ENUM, bounds='9 programs, all lists of up to 2 splines (thorough 3) of 4-8 kinds (quick a fixed fraction of the pairs for IRIT and XML), all position lists of length up to 2 (3) over 0..n, all orders of the 3 or 4 entries x 4 layouts (also without blank lines) x 5 selections (also absent and negative positions) (quick a third for VTK); every conversion run twice; 8 kinds of failure'),
    'C30': dict(src=['iga.cc'], libs=['baf', 'spl', 'io'], inc=['example/iga/src', 'example/iga/src/itg'], link=['-larmadillo'], technique=ENUM, bounds='rules with 1-5 points on all monomials; curves of degree 1-4 (thorough 5) with up to 3 interior knots of multiplicity up to 2 on 3 domains in 1-3 coordinates; surfaces of degrees 1-3 x 1-3; volumes of degrees 1-2; three weight patterns; every element, rule and function; both sides of every direction'),
    'C31': dict(src=['iga.cc'], libs=['baf', 'spl', 'io'], inc=['example/iga/src', 'example/iga/src/itg'], link=['-larmadillo'], technique=SEQ, bounds='geometries as C30 (flat; quick a fixed half), two conductivities, general sources and boundary values; every sequence of three requests (small curves, thorough all) or a history in which every request follows every request; grids of 1-13 (thorough 40), 1-7 x 1-7, 1-3 cells per direction on 6 domains; every byte count at which the disk is full'),
    'C32': dict(src=['refuse.cc'], libs=['baf'], technique=SEQ, bounds='curves of degree 0-4 (thorough 5) with two interior knots of every multiplicity up to 2 on 2 domains, surfaces of all degrees 0-2 x 0-2, volumes, rational and not; 9 kinds of requests with 11 parameters outside the range (neighbouring doubles, infinite, undefined), both ends and absent knots; every single request, every pair of requests (quick a fixed seventeenth), and every request between two valid operations (quick a third)'),
}
