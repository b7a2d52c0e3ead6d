#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], {}

def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, observe=list(observe)))

G = 'frackit/geometry/'
SAMPLE = 'The unit tests evaluate a handful of fixed coordinates; '

prop('C01', 'Vector and point algebra, rotation, parallelism and angle conversion',
     'For all coordinates, sums, differences, scalings, dot, cross and triple products, lengths and translations of points and vectors are the Euclidean ones, and two points are equal exactly if their distance is below the tolerance. Rotating a vector about an axis (singly or as a list) is the right-handed rotation by that angle. Two nonzero vectors are parallel exactly if they enclose an angle of 0 or 180 degrees up to the angular tolerance, and degree/radian conversions are mutually inverse.',
     ['inputs'], 'all real coordinates, scale factors, axes, angles and tolerances in 1d, 2d and 3d',
     SAMPLE + 'an error in one component, sign or quadrant shows only for some inputs',
     [G+'vector.hh', G+'point.hh', 'frackit/common/math.hh'],
     [('arithmetic operators and lengths', G+'vector.hh'), ('point arithmetic and equality', G+'point.hh'), ('crossProduct, boxProduct, rotate, toDegrees/toRadians', 'frackit/common/math.hh')])
prop('C02', 'Directions are unit vectors with the orientation they were built from',
     'A direction built from any nonzero vector has length one, is parallel to that vector and points the same way; inverting it negates it and scaling it by a number gives the vector of that signed length. The helper that returns a vector orthogonal to a direction always returns a nonzero vector orthogonal to it.',
     ['inputs'], 'all nonzero vectors in 1d, 2d and 3d',
     SAMPLE + 'normalisation and the case split of the orthogonal vector depend on which components vanish',
     [G+'direction.hh', G+'vector.hh', 'frackit/common/math.hh'],
     [('normalisation in the constructor', G+'direction.hh'), ('makeOrthogonalVector', 'frackit/common/math.hh')])
prop('C03', 'Projections onto lines and planes, and containment in them',
     'Projecting a point onto a line or plane yields the unique point on it whose offset from the original is orthogonal to it, and projecting again changes nothing. A line or plane contains a point exactly if the distance of the point to it is below the tolerance. Projecting a segment or a line onto a plane yields the segment between the projected ends, or a line that lies in the plane and passes through the projections of all points of the line.',
     ['inputs'], 'all supporting points, directions, query points and tolerances',
     SAMPLE + 'orthogonality and idempotence are universally quantified identities',
     [G+'line.hh', G+'plane.hh', G+'segment.hh'],
     [('Line::projection/contains', G+'line.hh'), ('Plane::projection/contains', G+'plane.hh')])
prop('C04', 'Planes always carry a right-handed orthonormal basis',
     'However a plane is constructed (point and normal, three points that are not collinear, or point and basis), its two base vectors and its normal are pairwise orthogonal unit vectors; when it is built from a point and normal or from three points the basis is right-handed. A plane built from a point and normal or a basis stores them unchanged; a plane built from three points contains all three and its normal points along the cross product of the first two edges.',
     ['inputs'], 'all points, normals, bases and non-collinear point triples',
     SAMPLE + 'the construction branches on which component of the normal vanishes',
     [G+'plane.hh', 'frackit/common/math.hh'], [('constructors', G+'plane.hh')])
prop('C05', 'Segments: ends, length, parametrisation and containment',
     'A segment reports the ends it was built from, their distance as its length, their midpoint as its center, and the point at local parameter k is source + k (target - source). Its direction is the unit vector from source to target, and inverting it swaps the ends. It contains a point exactly if the distance of the point to the nearest point of the segment is below the tolerance.',
     ['inputs'], 'all distinct end points, parameters, query points and tolerances',
     SAMPLE + 'containment has three regions (before, along and behind the segment), each with its own boundary',
     [G+'segment.hh', G+'line.hh'], [('Segment members', G+'segment.hh')])
prop('C06', 'Triangles, quadrilaterals and polygons: corners, edges, area, center, convexity',
     'Triangles, convex quadrilaterals and convex polygons report their corners and edges in the order of construction, the area and area centroid of the enclosed region, and a supporting plane through the corners. A planar quadrilateral or polygon is reported convex exactly if it turns the same way at every corner. Out-of-range edge indices and polygons of fewer than three corners are rejected with an exception.',
     ['inputs'], 'all non-degenerate triangles, all planar convex quadrilaterals, all planar convex polygons (verified up to five corners)',
     SAMPLE + 'only axis-aligned unit shapes, which cannot tell the right corner from the wrong one',
     [G+'triangle.hh', G+'quadrilateral.hh', G+'polygon.hh'],
     [('derived quantities', G+'triangle.hh'), ('derived quantities', G+'quadrilateral.hh'), ('triangulation', G+'polygon.hh')],
     note='Triangles and quadrilaterals proved for all shapes; polygons are bounded to 3-5 corners.')
prop('C07', 'Point containment agrees with the geometric definition for every shape',
     'A sphere, disk, ellipse, circle, solid, hollow or lateral cylinder, box, segment, triangle, convex quadrilateral or convex polygon contains a point exactly if the point satisfies the defining (in)equality of the shape up to the tolerance. In particular points of the shape are contained, and planar shapes reject points off their plane by more than the tolerance. Where containment in the supporting plane or curve is declared already checked, the answer for points that are on it is the same.',
     ['inputs'], 'all shapes in general position, all query points, all tolerances including the default one',
     SAMPLE + 'the set of contained points is a region whose whole boundary matters, for shapes in general position',
     [G+'sphere.hh', G+'disk.hh', G+'ellipse.hh', G+'circle.hh', G+'cylinder.hh', G+'hollowcylinder.hh', G+'cylindersurface.hh', G+'box.hh', G+'triangle.hh', G+'quadrilateral.hh', G+'polygon.hh', G+'segment.hh', G+'ellipsearc.hh'],
     [('contains', G+x) for x in ('sphere.hh', 'disk.hh', 'ellipse.hh', 'cylinder.hh', 'triangle.hh', 'quadrilateral.hh')],
     note='Polygons are bounded to 3-5 corners.')
prop('C08', 'Boxes: valid extents, consistent corners, edges, faces and volume',
     'A box can only be constructed with minimum not above maximum in each dimension, otherwise an exception is thrown, and it reports the extents, center and volume it was given. Its eight corners, twelve edges and six faces are those of the axis-aligned box, and out-of-range corner, edge and face indices are rejected. It contains a point exactly if each coordinate lies in the extent up to the tolerance.',
     ['inputs'], 'all extents, indices, query points and tolerances',
     SAMPLE + 'tests use the unit cube, in which corners, edges and faces are hard to tell apart',
     [G+'box.hh'], [('constructors, corner/edge/face tables', G+'box.hh')])
prop('C09', 'Curved shapes: parametrisations and parts of ellipses, arcs, disks, cylinders',
     'Points computed from an angle or local parameter of an ellipse, circle, disk or elliptic arc are the points of the parametrisation (center + a cos t along the major axis + b sin t along the minor axis, the disk scaled towards its center, an arc running from its source to its target by increasing angle), and asking an ellipse for the angle or parameter of its point inverts that. An arc is a full ellipse exactly if its ends coincide and contains a point of the ellipse exactly if the angle of the point lies in its angular range. The faces, rims, axes, center segment and lateral surfaces of solid and hollow cylinders lie where base, axis, height and radii say, and inconsistent radii or non-circular bases are rejected.',
     ['inputs'], 'all centers, orthonormal axes, radii, heights, angles and parameters',
     SAMPLE + 'angle inversion has a branch per quadrant and axis, arcs wrap around zero, shapes in general position mix all components',
     [G+'ellipse.hh', G+'ellipsearc.hh', G+'circle.hh', G+'disk.hh', G+'cylinder.hh', G+'hollowcylinder.hh', G+'cylindersurface.hh', G+'ellipticalgeometry.hh'],
     [('parametrisation and angle', G+'ellipse.hh'), ('arc angles', G+'ellipsearc.hh'), ('bounding circles and faces', G+'cylinder.hh')])
prop('C10', 'Lengths, areas and volumes agree with the analytic values',
     'The length of a segment or circle, the perimeter of an ellipse, the area of a disk, triangle, convex quadrilateral or lateral cylinder surface and the volume of a sphere, box, solid or hollow cylinder equal the analytic formulas, whether asked of the shape or through the free length, area, volume and magnitude functions. The length of a full elliptic arc is the perimeter of its ellipse. The magnitude of a geometry contained in a domain (also for a pointer to the base class) is the sum over the pieces of their common part, zero if there are none.',
     ['inputs'], 'all shapes in general position',
     SAMPLE + 'equality with a formula is quantified over all sizes and orientations',
     ['frackit/magnitude/length.hh', 'frackit/magnitude/area.hh', 'frackit/magnitude/volume.hh', 'frackit/magnitude/magnitude.hh', 'frackit/magnitude/containedmagnitude.hh', 'frackit/geometryutilities/applyongeometry.hh', G+'cylinder.hh', G+'hollowcylinder.hh', G+'disk.hh', G+'sphere.hh'],
     [('computeLength/Area/Volume/Magnitude', 'frackit/magnitude/magnitude.hh'), ('computeContainedMagnitude', 'frackit/magnitude/containedmagnitude.hh')],
     note='Contained magnitudes are bounded to 3 pieces; the common part and the measure of shapes are assumed (OpenCASCADE).')

prop('C11', 'Bounding box and interval intersection tests are exact',
     'Two intervals or axis-aligned bounding boxes are reported to intersect exactly if in every dimension the gap between them is below the tolerance (touching and nested ones included), in either argument order. In particular boxes with a common point intersect, and the default tolerance is the mean of the default tolerances of the two boxes.',
     ['inputs'], 'all boxes (including flat ones), all intervals, all positive tolerances',
     SAMPLE + 'each of the six gaps has a boundary of its own',
     ['frackit/intersection/bboxintersection.hh', 'frackit/common/math.hh', G+'box.hh'],
     [('doIntersect(Box, Box)', 'frackit/intersection/bboxintersection.hh'), ('intervalsOverlap', 'frackit/common/math.hh')])
prop('C12', 'Distances and boundary distances are the minimal ones',
     'The distance between two points is the Euclidean one, between a point and a line or segment the distance to the nearest point of it, in either argument order (for a segment up to the relative confusion tolerance at its ends). The distance of a point to the boundary of a quadrilateral or polygon is the smallest distance to one of its edges, and a point is on the boundary of a quadrilateral, polygon, disk or lateral cylinder surface exactly if its distance to one of the boundary curves is below the tolerance; a point is on a segment exactly if its distance to it is below the tolerance. The distance to several geometries is the smallest one, and the distance to a variant is that to its current alternative.',
     ['inputs'], 'all points, lines, segments, planar convex quadrilaterals, polygons (3 and 4 corners), disks and cylinders, all tolerances',
     SAMPLE + 'nearest points lie on different edges or regions depending on the input',
     ['frackit/distance/distance.hh', 'frackit/distance/distancetoboundary.hh', 'frackit/distance/pointongeometry.hh', 'frackit/distance/pointonboundary.hh'],
     [('computeDistance', 'frackit/distance/distance.hh'), ('computeDistanceToBoundary', 'frackit/distance/distancetoboundary.hh'), ('pointOnGeometryBoundary', 'frackit/distance/pointonboundary.hh')],
     note='Polygons are bounded to 3 and 4 corners, vectors of geometries to 3 entries; distances that OpenCASCADE computes (to an ellipse, circle or shape) are assumed.')
prop('C13', 'Default tolerances scale with the size of the geometry',
     'The default tolerance of a geometry is positive whenever the geometry has a positive size and equals the confusion precision times its characteristic length: the length of a segment, the radius of a circle or sphere, the mean of the semi-axes of an ellipse or disk, the mean of radius and height of a lateral cylinder surface, half the square root of the area of a quadrilateral or polygon, the diagonal of a box or of the bounding box of a shape. It therefore scales linearly with the geometry. Geometries without a size get the confusion precision itself.',
     ['inputs'], 'all sizes and orientations',
     SAMPLE + 'at unit size every characteristic length gives nearly the same tolerance',
     ['frackit/precision/defaultepsilon.hh', 'frackit/precision/precision.hh', 'frackit/occ/breputilities.hh'],
     [('defaultEpsilon', 'frackit/precision/defaultepsilon.hh')],
     note='The extents of the bounding box of an OpenCASCADE shape are assumed.')
prop('C14', 'Constraints admit exactly the entity pairs that satisfy all active ones',
     'Evaluating constraints on two entities returns true exactly if every active constraint holds: entities that do not intersect are at least the minimum distance apart; for intersecting ones each intersection piece has at most dimension one lower than the entities (unless intersections of equal dimension are allowed), at least the minimum magnitude, at least the minimum distance to the boundaries of both entities unless it ends on them, and the entities enclose at least the minimum angle. Neglected constraints never reject a pair, a fresh object has no active ones, a user-defined tolerance is handed to the intersection algorithm exactly while set, and evaluating an entity against a set, or two sets, is the conjunction over all pairs. Entities may also be given as pointers to the abstract base class, in either or both places; the constraints are then evaluated for the disk or quadrilateral pointed to, and unsupported geometries throw.',
     ['inputs', 'histories'], 'all combinations of active constraints, all thresholds, all intersection results (empty, points, segments, areas; one or several pieces), all distances and angles',
     'the unit tests exercise single constraints on few configurations; the interplay of up to five switches with the kinds of intersections multiplies out',
     ['frackit/entitynetwork/constraints.hh', 'frackit/entitynetwork/constraints_impl/admissibledimension.hh', 'frackit/entitynetwork/constraints_impl/admissiblemagnitude.hh', 'frackit/entitynetwork/constraints_impl/distancetoboundary.hh'],
     [('EntityNetworkConstraints::evaluate', 'frackit/entitynetwork/constraints.hh'), ('isAdmissibleDistanceToBoundary', 'frackit/entitynetwork/constraints_impl/distancetoboundary.hh')],
     note='Verified for an entity type whose intersection, distance and angle are arbitrary functions. Bounded: at most 2 pieces per intersection, sets of at most 3 entities.')

prop('C15', 'The constraint matrix applies exactly the constraints registered for an id',
     'After any registrations of constraints for ordered pairs of set ids, evaluating an entity for an id is the conjunction over all pairs registered with that id first, of the constraints registered for that pair evaluated between the entity and the other set, where sets that do not exist (yet) count as satisfied. Registering a pair twice throws and leaves no relation changed; registration in the order (i,j) says nothing about (j,i); evaluation for an id without registered constraints throws; evaluation changes nothing.',
     ['histories', 'inputs'], 'all sets of registered pairs and their order, all answers of the individual constraints, all existing and missing sets',
     'the unit test registers one matrix and looks at one answer; direction, duplicates and missing sets are independent of it',
     ['frackit/entitynetwork/constraintsmatrix.hh', 'frackit/common/idpair.hh', 'frackit/common/id.hh'],
     [('addConstraints, evaluate, updateIndexMaps_', 'frackit/entitynetwork/constraintsmatrix.hh')],
     level='other', note='Bounded, not counted as proof: two ids (all 16 sets of pairs in two insertion orders, lists of two pairs); the individual constraints are uninterpreted predicates.')
prop('C16', 'The sampling status counts and reports samples per id correctly',
     'Whatever sequence of operations preceded, the sampling status reports for each id the number of samples added since its last reset (zero for unknown ids), the sum over all ids as overall count, and an id as finished exactly if its count has reached the target set for it; sampling is finished exactly if every known id is. Asking for an id without target whether it is finished throws. Setting targets keeps counts, resetting counters keeps targets, operations on one id never affect another one, and queries never change the state.',
     ['histories'], 'all histories of setting targets, adding samples, resetting and querying, in any order',
     'the unit test checks a few states of one history; the guarantee is about every order of operations, including ids that were never given a target',
     ['frackit/sampling/status.hh', 'frackit/common/id.hh'],
     [('SamplingStatus members', 'frackit/sampling/status.hh')],
     level='other', note='Bounded, not counted as proof: each operation is verified from an arbitrary state satisfying the class invariant (induction over histories); bounded to 4 distinct ids. Printing is not covered.')
prop('C17', 'Sampling strategies and multi-geometry samplers serve the ids in turn',
     'The sequential strategy hands out the ids in the order they were added, each exactly once per round, and adding a known id again changes nothing; without ids, asking for the next one throws. A multi-geometry sampler draws from the sampler registered for the id that its strategy chose, returns the sample as the geometry type of that sampler together with that id, refuses a second sampler for an id, and throws when the strategy names an id without sampler or when nothing was registered.',
     ['histories'], 'all registration orders and ids, all positions within a round',
     'the tests draw from one fixed sampler setup; the round-robin and the pairing of id and sample have to hold after every history',
     ['frackit/sampling/sequentialsamplingstrategy.hh', 'frackit/sampling/multigeometrysampler.hh', 'frackit/sampling/samplingstrategy.hh'],
     [('SequentialSamplingStrategy', 'frackit/sampling/sequentialsamplingstrategy.hh'), ('MultiGeometrySampler', 'frackit/sampling/multigeometrysampler.hh')],
     level='other', note='Bounded, not counted as proof: at most 4 ids (strategy, from an arbitrary state), 3 samplers and 4 draws (multi-geometry sampler); the behaviour without ids is proved.')
prop('C18', 'Entity sets keep every entity under its id, complete and in order',
     'Entities added under an id are stored under that id only, in the order of insertion and with their own type; adding an entity of another type to a non-empty set throws and changes nothing. applyOnSet calls its function exactly once with the complete set if it exists and reports whether it did, numEntities counts one set or all of them, and exporting hands each requested existing set exactly once and complete to the builder under the requested subdomain, without changing anything. Entities passed as pointers to the base class are stored as their actual type, unsupported types throw. Assigning from a base pointer succeeds exactly if the types agree, and otherwise leaves the target as it was.',
     ['histories', 'inputs'], 'all contents of the sets, all entities, ids and requested exports',
     'the tests export one network; cross-talk between ids or types appears only in other combinations',
     ['frackit/entitynetwork/multigeometryentityset.hh', 'frackit/geometryutilities/assign.hh', 'frackit/geometryutilities/name.hh'],
     [('MultiGeometryEntitySet members', 'frackit/entitynetwork/multigeometryentityset.hh'), ('assign', 'frackit/geometryutilities/assign.hh')],
     level='other', note='Bounded, not counted as proof: two ids, two geometry types, at most 3 entities per set; entity data symbolic.')
prop('C19', 'Samples are built from the drawn parameters and stay in the sampled domain',
     'Point samplers for boxes, cylinders and hollow cylinders set up one distribution per coordinate over exactly the extent of the domain (squared radius, angle and height for cylinders), draw each once per point, return the point with exactly these coordinates, and with uniform distributions every sample lies inside the domain, whatever the random numbers are. A disk sampler returns a disk around the sampled center with the sampled, positive axis lengths (minor at most major) and with its axes rotated by the sampled angles around x, y and z in this order. Sampled polygons are convex, lie in the plane rotated by strike and dip and have the sampled number of corners and their bounding box around the sampled center; quadrilaterals are such polygons with four corners or, from the deprecated sampler, built from four admissible edge lengths. Samplers that cannot obtain an admissible value report that.',
     ['inputs', 'schedules'], 'all domains, all sequences of random numbers',
     'random tests look at finitely many draws from fixed domains',
     ['frackit/sampling/boxpointsampler.hh', 'frackit/sampling/cylinderpointsampler.hh', 'frackit/sampling/uniformpointsamplertraits.hh', 'frackit/sampling/makepointsampler.hh', 'frackit/sampling/disksampler.hh', 'frackit/sampling/polygonsampler.hh', 'frackit/sampling/quadrilateralsampler.hh'],
     [('BoxPointSampler', 'frackit/sampling/boxpointsampler.hh'), ('CylinderPointSampler', 'frackit/sampling/cylinderpointsampler.hh'), ('DiskSampler', 'frackit/sampling/disksampler.hh'), ('traits and factories', 'frackit/sampling/makepointsampler.hh')],
     note='Point samplers and the new quadrilateral sampler: proved for all inputs and draws. Bounded and counted separately: disk sampler (3 draws until a length is positive), deprecated quadrilateral sampler (one inadmissible draw in a row), polygon sampler (3 or 4 corners, fixed coordinate and length draws, all angles and centers).')
prop('C20', 'Intersections of planes, lines, segments and planar shapes are the common points',
     'A plane and a line, and two planes, intersect in the common point, the common line or not at all, decided by their angle and distance with the given tolerance; two collinear segments intersect in their overlap, in the corner they touch at, or not at all, and two segments that are not parallel in the point common to both or not at all. A planar shape and a line intersect in the part of the line inside the shape (a segment, a touching point, or nothing), and two planar shapes in the common part of their pieces on the line common to their planes (a segment, a point or nothing); shapes in parallel planes do not intersect, and shapes in one plane throw. A cylinder surface and a planar shape intersect in the touching points of their outlines and in the pieces of the section: segments, circular arcs, the whole circle or ellipse. Geometries whose bounding boxes are apart do not intersect, both argument orders give the same answer, the size passed on covers both shapes, concave quadrilaterals and polygons and unimplemented pairs throw, and without a given tolerance the smaller default of the two geometries is used. An intersection counts as empty exactly if all of its pieces are empty.',
     ['inputs'], 'all planes, lines, segments, planar shapes and tolerances, given that OpenCASCADE computes the common part of two shapes',
     SAMPLE + 'which kind of intersection results depends on tolerances and on touching configurations that only occur for some inputs',
     ['frackit/intersection/intersect.hh', 'frackit/intersection/emptyintersection.hh', 'frackit/intersection/bboxintersection.hh', 'frackit/intersection/algorithms/algo_plane_line.hh', 'frackit/intersection/algorithms/algo_plane_plane.hh', 'frackit/intersection/algorithms/algo_segment_segment.hh', 'frackit/intersection/algorithms/algo_planargeom_line.hh', 'frackit/intersection/algorithms/algo_planargeom_planargeom.hh', 'frackit/intersection/algorithms/algo_polygon_disk.hh', 'frackit/intersection/algorithms/algo_quadrilateral_disk.hh', 'frackit/intersection/algorithms/algo_cylsurface_planargeom.hh'],
     [('intersect() overloads', 'frackit/intersection/intersect.hh'), ('planar geometry and line', 'frackit/intersection/algorithms/algo_planargeom_line.hh'), ('pairs of planar geometries', 'frackit/intersection/algorithms/algo_planargeom_planargeom.hh')],
     note='The OpenCASCADE boolean operations and intersectors enter as assumed contracts; emptiness of lists of pieces is bounded to 3 pieces, sections of cylinder surfaces to 2 pieces (counted separately); inclined sections are only run on concrete shapes.')
prop('C21', 'Intersection angles are the angle between the (tangent) planes',
     'The angle between two planes is the arc cosine of the absolute product of their unit normals: between 0 and 90 degrees, symmetric, independent of orientation and position, and never undefined. Planar geometries meeting in a point or segment have the angle of their supporting planes; a planar geometry and a cylinder surface have the angle between the supporting plane and the tangent plane at the point, at the segment, or the least one over the sample points of an arc or ellipse, in either order of arguments. For faces it is taken with the tangent plane at the projection of the point onto the surface, for edges as the least over five points along the edge, and it is zero within a common face. For alternatives it is the angle of the actual one, for several intersections the least one, and for an empty intersection it throws.',
     ['inputs'], 'all planes, cylinder surfaces and intersection geometries',
     SAMPLE + 'the sample points at which the least angle is taken and the order of the arguments matter only for some configurations',
     ['frackit/intersection/intersectionangle.hh', G+'plane.hh', G+'cylindersurface.hh'],
     [('IntersectionAngle::operator()', 'frackit/intersection/intersectionangle.hh')],
     note='Lists of intersections are bounded to 3 pieces (counted separately).')

prop('C22', 'Entity networks consist of the pieces of the entities in their domain',
     'A network consists of exactly the pieces into which the entities are cut by each other (and, if sub-domains are part of the network, by these), after confinement to their own sub-domain if that is confining, else to the union of all sub-domains unless this is switched off; nothing else is part of it, in particular no edges or points in which entities meet, and no piece is lost or listed twice within a sub-domain. Every piece carries the number of the entity it stems from, and pieces of different entities never share a number, whatever vanishes upon confinement; sub-domains keep their ids and their own pieces. Building works for any number of shapes, including one, and can be repeated with the same result; asking for a network that was not built throws. Registering shapes of inadmissible dimension or under a taken id throws and changes nothing. All operations use the given tolerance, or else the smallest default of the sub-domains or, without these, of the entities.',
     ['histories', 'inputs'], 'all registered entities and sub-domains and everything the boolean operations can report for them',
     'the tests build a few fixed networks and check that files are written; lost or mixed-up pieces occur only for particular combinations of confinement, deletion and splitting',
     ['frackit/entitynetwork/networkbuilder.hh', 'frackit/entitynetwork/entitynetwork.hh', 'frackit/entitynetwork/containedentitynetwork.hh', 'frackit/precision/defaultepsilon.hh'],
     [('confineNetworks_, fragment_, build', 'frackit/entitynetwork/networkbuilder.hh')],
     level='other', note='Bounded, not counted as proof: two sub-domains, at most four entities, two pieces per shape and operation; the boolean operations of OpenCASCADE enter as an assumed contract (any admissible history of kept, deleted, split and shared shapes) and are run for real on random networks of rectangles.')

prop('C23', 'Written networks are complete and group the pieces as in the network',
     'The compound written of a network (.brep) contains every vertex, edge, wire and face of its entity pieces, and every shell and solid of its sub-domain pieces, exactly once, and nothing else. In the Gmsh file (.geo) every entity piece is in exactly one group, that of its entity (named by the number of the entity if there are no sub-domains), and two pieces share a group exactly if they stem from the same entity of the same sub-domain; every sub-domain piece is in the group named by the id of its sub-domain. The edges common to several entity pieces, and only these, are in one group of intersections each, whatever the orientation of the pieces. The groups refer to the pieces by their index among the shapes of that kind in the compound, list each piece once and carry the mesh size given for entities and sub-domains, and the file refers to the .brep file that was written. Networks whose entities are not surfaces, or whose sub-domains are not bodies, are refused.',
     ['inputs'], 'all networks: arrangements of shared sub-shapes, numbers, ids and orientations of the pieces',
     'the test writes two fixed networks and looks at nothing that was written',
     ['frackit/io/brepwriter.hh', 'frackit/io/gmshwriter.hh', 'frackit/occ/breputilities.hh', 'frackit/entitynetwork/entitynetwork.hh', 'frackit/entitynetwork/containedentitynetwork.hh'],
     [('BRepWriter', 'frackit/io/brepwriter.hh'), ('GmshWriter::write', 'frackit/io/gmshwriter.hh')],
     level='other', note='Bounded, not counted as proof: three faces in eight arrangements, three sub-domains with four pieces and at most four entities in three arrangements, at most two groups of each kind in the file; exploring shapes, adding to compounds and writing files enter as assumed contracts and are run for real on networks built from random rectangles and boxes.')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'] or ['return values of the public API'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    base = 'Every obligation of the contracts is generated from the current headers (clang LLVM IR) and discharged for all inputs over exact real arithmetic; each contract is also executed on the real code. Trusted: clang/opt, the VC generator, z3/cvc5, assumed contracts of functions outside the repository (listed in the evidence).'
    m = dict(version=1, setup_cmd='python3-vt engine/setup.py',
             checks=[dict(property=p['id'], quick_cmd='python3-vt engine/run.py ' + p['id'], thorough_cmd='python3-vt engine/run.py %s --thorough' % p['id'],
                          technique='contract-based deductive verification of the compiled headers (VC generation over LLVM IR, exact algebra + SMT)',
                          level=p['level'], level_note=(p['note'] + ' ' if p['note'] else '') + base) for p in P if p['id'] not in NA],
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for p in P: assert len(p['title']) <= 80, p['id']

main()
