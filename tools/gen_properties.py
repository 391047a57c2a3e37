import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['dreimac/'+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title)); assert statement.count('. ')<=2,(id,statement.count('. '))
    P.append(d)

p('C01','Circular coordinates are the harmonic map of the selected cohomology class',
 'For every data set, selected class, prime, coverage percentage, range mode and partition of unity, the circular coordinate of each covered data point lies in [0, 2*pi] and equals, up to one rotation per connected component of the cover, the partition-of-unity average over the landmarks covering the point of (least-squares potential + value of an integer cocycle that reduces to the selected class modulo the prime), modulo one turn. The value does not depend on which of the balls containing the point is used, so the map winds around every loop of the data exactly as the selected class prescribes.',
 ['inputs','configurations'],'all data sets (metrics, landmarks, extra points), classes, primes, percentages, range modes, partitions of unity',
 'The tests look at two hand-made data sets with the default settings and only ask for rough continuity or constancy; they never compare values and never vary the partition of unity, prime, range mode or vertex order.',
 ['toroidalcoords.py','circularcoords.py','emcoords.py','utils.py'],
 [('ToroidalCoords.get_coordinates','toroidalcoords.py'),('_integrate_harmonic_representative','toroidalcoords.py'),('_sparse_integrate','toroidalcoords.py'),('CohomologyUtils.make_delta0','utils.py')],
 observe=['CircularCoords.get_coordinates'])
p('C02','Toroidal coordinates are a reduced integer change of basis of circular ones',
 'For every list of selected classes whose lifetimes overlap, the toroidal coordinates returned are, up to a rotation per coordinate and connected component, an invertible integer combination (determinant +1 or -1) of the circular coordinates of the individual classes, all built at the one scale where all of them are alive (latest birth, earliest death). The combination is a lattice-reduced (LLL, factor 3/4) basis with respect to the Dirichlet inner product of the harmonic representatives, so two coordinates never have more total energy than the unreduced ones, and the reported Gram matrices and change of basis agree with the coordinates returned. A single class gives exactly its circular coordinate, and classes with disjoint lifetimes are refused with an error.',
 ['inputs','configurations'],'all data sets and lists of classes in any order, including every basis of the cohomology the persistence computation may return',
 'The tests check shapes, and that a Frobenius norm does not grow, on four examples whose bases are almost reduced from the start; they never relate coordinates before and after the reduction.',
 ['toroidalcoords.py','utils.py'],
 [('_reduce_circular_coordinates / _lll / _gram_schmidt','toroidalcoords.py'),('_gram_matrix','toroidalcoords.py'),('CircleMapUtils.linear_combination','utils.py')],
 observe=['ToroidalCoords.get_coordinates'])
p('C03','Coordinates only ever use a genuine integer lift of the selected class',
 'When cocycle checking is on, circular, toroidal and complex projective coordinates are built from an integer cocycle congruent to the selected class modulo the prime: the lift with coefficients of least absolute value whenever that is a cocycle at the chosen scale, otherwise a corrected one. If the class has no integer lift (torsion), or the integer solver reports failure, an error naming the class is raised and no coordinates are returned. This holds for every representative of the class the persistence computation may return and for every feasible solution the integer solver may return.',
 ['inputs','fault_sequences','configurations'],'all small complexes, primes, cohomologous representatives, selections of several classes, and solver answers (any feasible point, rounding noise, failure)',
 'Only the trefoil test can reach the correction, on one representative and with whatever the solver happens to answer; no test has a class without a lift, two classes to fix, or a degree-two class to fix.',
 ['toroidalcoords.py','complexprojectivecoords.py','utils.py'],
 [('_is_one_cocycle','toroidalcoords.py'),('_is_two_cocycle','complexprojectivecoords.py'),('milp correction','toroidalcoords.py, complexprojectivecoords.py'),('lift_to_integer_cocycle','utils.py'),('make_delta1_compact, make_delta2_compact','utils.py')],
 observe=['CircularCoords.get_coordinates','ToroidalCoords.get_coordinates','ComplexProjectiveCoords.get_coordinates'])
p('C04','Real projective coordinates are the reduced classifying map of the class',
 'For every data set and selected class, the real projective coordinates of the covered points are unit vectors which, up to one orthogonal transformation of the target and a sign per point, are the requested dimensionality reduction of the classifying map whose i-th entry at a point is the square root of the partition-of-unity value of landmark i times the sign given by the cocycle between i and a ball containing the point. In particular the point of projective space obtained does not depend on the ball chosen or on the representative of the class, and proj_dim + 1 columns are returned (or one per landmark if there are fewer).',
 ['inputs','configurations'],'all data sets, classes, percentages, range modes, partitions of unity, target dimensions and reduction modes',
 'The tests compare norms of a vector which is all zeros in the default mode; no test looks at a coordinate.',
 ['projectivecoords.py','emcoords.py','utils.py'],
 [('ProjectiveCoords.get_coordinates','projectivecoords.py'),('EquivariantPCA.ppca','utils.py')],observe=['ProjectiveCoords.get_coordinates'])
p('C05','Complex projective coordinates are the reduced classifying map of the class',
 'For every data set and selected degree-two class, the complex projective coordinates of the covered points are unit vectors which, up to one unitary transformation of the target and a phase per point, are the requested dimensionality reduction of the line-bundle map determined by the class: entry i at a point has modulus the square root of the partition-of-unity value of landmark i and, as phase, the least-squares potential between i and a ball containing the point plus the partition-of-unity average of the harmonic representative. The point of projective space obtained does not depend on the ball chosen, on the representative, on the size of the data set or on whether functions are compiled, and proj_dim + 1 columns are returned (or one per landmark if there are fewer).',
 ['inputs','configurations'],'all data sets (of any size), degree-two classes, primes, percentages, range modes, partitions of unity, target dimensions and reduction modes',
 'The tests compare norms of a vector which is all zeros in the default mode, so even a constant map passes.',
 ['complexprojectivecoords.py','emcoords.py','utils.py'],
 [('_sparse_integrate, _one_cocycle_to_tensor, _two_cocycle_to_tensor','complexprojectivecoords.py'),('CohomologyUtils.make_delta1','utils.py')],observe=['ComplexProjectiveCoords.get_coordinates'])
p('C06','Lens coordinates are the reduced classifying map of the class',
 'For every data set, prime p and selected class, the lens coordinates of the covered points are unit complex vectors which, up to one unitary transformation of the target and a p-th root of unity per point, are the requested dimensionality reduction of the classifying map whose i-th entry at a point is the square root of the partition-of-unity value of landmark i times exp(2*pi*i/p) to the power of the cocycle value from a ball containing the point to i. The point of the lens space obtained does not depend on the ball chosen or on the representative of the class, and complex_dim columns are returned (or one per landmark if there are fewer).',
 ['inputs','configurations'],'all data sets, primes, classes, percentages, range modes, partitions of unity, target dimensions and reduction modes',
 'No test calls lens coordinates at all.',
 ['lenscoords.py','emcoords.py','utils.py'],
 [('LensCoords.get_coordinates','lenscoords.py'),('EquivariantPCA.ppca','utils.py')],observe=['LensCoords.get_coordinates'])
p('C07','The cover yields a partition of unity and flags exactly the uncovered points',
 'For every radius and every bump function offered (linear, quadratic, exponential), the weights of a point covered by some landmark ball are non-negative, sum to one, vanish on exactly the landmarks at distance at least the radius, and are proportional to the bump function of the distance; the ball assigned to the point is one that contains it. A point not covered by any ball is reported by a warning stating how many such points there are, gets undefined (NaN) weights and coordinates and never a made-up value, and has no effect on the coordinates of covered points in any of the coordinate types.',
 ['inputs','configurations'],'all distance patterns between landmarks and points, radii, bump functions, number types of the distances, sets of uncovered points',
 'No test inspects weights or has an uncovered point whose effect it measures.',
 ['emcoords.py','utils.py'],[('EMCoords.get_covering_partition','emcoords.py'),('PartUnity','utils.py'),('EquivariantPCA.ppca','utils.py')],observe=['EMCoords.get_covering_partition','get_coordinates of every class'])
p('C08','The scale of the construction interpolates the lifetime of the class',
 'Coordinates are built on the Rips complex of edges strictly shorter than (1 - perc) * start + perc * death with balls of half that radius, where start is the birth of the class, or twice the birth with standard_range on. If start exceeds the death an error asking to switch standard_range off is raised and no coordinates are returned; it is never raised otherwise. This is the same for all five coordinate types, for every class in every diagram.',
 ['inputs','configurations'],'all diagrams, classes, percentages in [0, 1], range modes and coordinate types',
 'The tests use a handful of percentages with clear-cut classes and never observe the scale or provoke the error.',
 ['emcoords.py','toroidalcoords.py','projectivecoords.py','complexprojectivecoords.py','lenscoords.py'],[('EMCoords.get_cover_radius','emcoords.py'),('get_coordinates','all coordinate classes')],observe=['EMCoords.get_cover_radius','get_coordinates of every class'])
p('C09','Classes are listed by persistence with matching, correctly labelled cocycles',
 'After construction, in every positive degree up to maxdim, classes are listed by decreasing persistence, the list is exactly the persistence diagram of the landmarks, and entry k of the diagram goes with a representative of exactly that class. The representative is expressed in positions of the landmarks in the maxmin subsample, takes values in the prime field, is a cocycle on the complex just below its death and a non-trivial one from its birth on. The landmarks are the maxmin (farthest point) subsample started at the first point.',
 ['inputs','configurations'],'all metrics on few points, landmark numbers, primes, degrees and input forms',
 'Tests pick class 0 in well separated examples; no test examines the order of other classes, the pairing with cocycles or the relabelling.',
 ['emcoords.py','utils.py'],[('EMCoords.__init__','emcoords.py'),('CohomologyUtils.reindex_cocycles','utils.py'),('EMCoords.get_representative_cocycle','emcoords.py')],
 state=[('_dgms','diagrams sorted by decreasing persistence','emcoords.py'),('_cocycles','representatives aligned with the diagrams','emcoords.py')],observe=['EMCoords.get_representative_cocycle','persistence diagrams attribute'])
p('C10','Results do not depend on the history of calls, and inputs are left alone',
 'Whatever sequence of queries has been made on a coordinate object, or on other objects alive at the same time, with whatever parameters and including ones that failed with an error, the next query returns the same result as on a freshly constructed object. The arrays and lists the user passed in and the arrays returned by earlier queries are never modified.',
 ['histories','configurations'],'all sequences of public queries on one or two objects up to a bound, with every reachable object state explored',
 'Every test calls get_coordinates once per object, so no test can see a value cached, mutated or left behind by an earlier call.',
 ['emcoords.py','toroidalcoords.py','circularcoords.py','projectivecoords.py','complexprojectivecoords.py','lenscoords.py','utils.py'],[('get_coordinates','all coordinate classes'),('lift_to_integer_cocycle','utils.py')],
 state=[('_cocycles','stored representatives','emcoords.py'),('_r_cover, _rips_threshold','left behind by the last query','emcoords.py')],observe=['all public methods of the coordinate classes'])
p('C11','Projective dimensionality reduction is an equivariant principal projection',
 'In each of its modes the projective dimensionality reduction returns unit vectors of the requested dimension that are, up to one unitary change of basis, the normalised projection onto the leading principal directions (removed in one go, by repeatedly halving the surplus, or one at a time, reporting for each direction removed the mean squared angle between the points and their projections). It is equivariant: multiplying points by unit scalars multiplies their images by the same scalars, unitary changes of the source coordinates change nothing up to a unitary of the target, and data lying in a subspace of the requested dimension is reproduced exactly. Failure of the eigenvalue solver at any step, or points with undefined coordinates, never changes the shape of the result nor makes the image of another point undefined or non-unit.',
 ['inputs','fault_sequences','configurations'],'all small real and complex point sets, target dimensions, modes, gauge and basis changes, and patterns of solver failures',
 'Tests use it inside the pipeline, in the default mode, and look only at shapes.',
 ['utils.py'],[('EquivariantPCA.ppca','utils.py')],observe=['EquivariantPCA.ppca'])
p('C12','Greedy landmark sampling is a farthest-point sampling with faithful distances',
 'For every point cloud or distance matrix and every number of landmarks, greedy sampling starts at the first point and each further landmark maximises the distance to those chosen before; the reported insertion radii are those maximal distances and never increase, the reported distances are those from each landmark, in order, to all points, and asking for fewer landmarks gives a prefix. Sampling a point cloud and sampling its distance matrix agree, cross-distance matrices are the Euclidean (or projective arc) distances between all pairs, and the input is not modified.',
 ['inputs'],'all small lattice point clouds and distance matrices (with ties and repeated points), landmark numbers and distance functions',
 'No test calls these functions.',
 ['utils.py'],[('GeometryUtils.get_greedy_perm_pc','utils.py'),('GeometryUtils.get_greedy_perm_dm','utils.py'),('GeometryUtils.get_csm, get_csm_projarc, get_ssm','utils.py')],observe=['GeometryUtils'])
p('C13','Geodesic landmark distances refer to the permutation they are returned with',
 'For every point cloud (also with repeated points or a disconnected neighbour graph), the geodesic landmark routine returns a permutation of all points whose first entries are the farthest-point landmarks for the graph metric, started at the first point, followed by all the remaining points. Entry (i, j) of the returned matrix is the shortest-path distance in the symmetric nearest-neighbour graph between landmark i and the j-th point of that permutation, infinite exactly when no path exists; so the matrix is a valid rectangular distance-matrix input for every coordinate class.',
 ['inputs'],'all small lattice point clouds, landmark numbers and neighbour numbers',
 'No test calls this function.',
 ['utils.py'],[('GeometryUtils.landmark_geodesic_distance','utils.py')],observe=['GeometryUtils.landmark_geodesic_distance'])
p('C14','Circle-map utilities do exact arithmetic on the circle',
 'Integer linear combinations of circle-valued maps are computed modulo one turn: the result is unchanged by whole turns in the input, composing two combinations is combining by the matrix product, and vector and list arguments mean the same as matrices and arrays. Offsetting rotates every point by the given fraction of a turn; centring is a rotation that puts the start of the most populated of 50 equal bins at half a turn; all results lie in [0, 2*pi]. Level-set and sinebow colourings depend only on the point of the circle and take values in [0, 1], the level-set colouring dividing the turn, from 0 on, into 2 * n_levelsets equal arcs that belong to the two classes alternately (without smoothing), or along which it varies monotonically between its extremes (with smoothing).',
 ['inputs'],'all maps with values on a grid of the circle, integer matrices with small entries, offsets, level-set numbers and smoothings',
 'No test calls these functions directly; linear combinations only occur with the near-identity matrices of four examples.',
 ['utils.py'],[('CircleMapUtils.linear_combination, offset, center, levelset_coloring, to_sinebow','utils.py')],observe=['CircleMapUtils'])
p('C15','Rotations, stereographic and Hopf projections respect projective geometry',
 'The rotation taking one vector to another is, for every pair of non-zero vectors (also parallel, opposite or nearly so), an orthogonal matrix of determinant one that maps the first direction onto the second, the last axis by default, and (unless they are opposite) fixes everything orthogonal to both. The codimension-one stereographic projection gives antipodal points the same image (opposite ones on the boundary sphere), lands in the unit ball, sends the pole (by default the direction of least variance of the points, selected on the disk as the unit vector of the upper hemisphere above a point clipped to it) to the origin and is inverted by the inverse stereographic map up to sign and rotation. The Hopf map sends unit vectors of C^2 to unit vectors of R^3, doubling the angles between the points of CP^1, so images are equal exactly for equal points, and the two-hemisphere projection sends each hemisphere around the given centre into its own unit disk injectively, both in one frame, so that a point of the equator is at the same place on either boundary circle.',
 ['inputs'],'all pairs of vectors from a lattice in dimensions 2 to 4 and perturbations of them, all points of grids on spheres',
 'No test calls these functions.',
 ['utils.py'],[('ProjectiveMapUtils.rotmat, get_stereo_proj_codim1, hopf_map, stereographic_projection_hemispheres, circle_to_3dnorthpole','utils.py')],observe=['ProjectiveMapUtils'])
p('C16','The lens disk projection is well defined on the lens space',
 'For every prime q and every unit vector of C^2 the projection gives a finite point of the closed unit ball of R^3, and multiplying the vector by any q-th root of unity gives the same point (on the boundary sphere, up to its identification). Different points of the lens space have different images except for the identification of the two hemispheres of the boundary sphere by a rotation of 2*pi/q, and the image depends continuously on the point away from that boundary.',
 ['inputs'],'all points of a grid of the 3-sphere including degenerate circles and sector boundaries, primes up to a bound and all roots of unity',
 'No test calls this function.',
 ['utils.py'],[('LensMapUtils.lens_3D_to_disk_3D','utils.py')],observe=['LensMapUtils.lens_3D_to_disk_3D'])
p('C17','Simplex numbering and coboundary operators form the Rips cochain complex',
 'For every number of vertices and dimension, the numbering of simplices is a bijection from the increasing vertex tuples onto an initial segment of the integers, and turning a sparse cochain into a vector puts each value, multiplied by the sign of the reordering, at the number of its simplex whatever the order of the vertices in the entry. For every distance matrix and threshold the coboundary operators are exactly the signed incidence matrices of the simplices all of whose edges are strictly shorter than the threshold; consecutive ones compose to zero, and the cocycle test accepts exactly the cochains that the coboundary operator kills.',
 ['inputs'],'all vertex numbers and dimensions up to a bound, all graphs on few vertices, all small-valued cochains and all vertex orders',
 'One test compares the numbering of five triangles; operators, orientation signs and cocycle tests are never examined.',
 ['combinatorial.py','utils.py','toroidalcoords.py','complexprojectivecoords.py'],[('combinatorial_number_system_*','combinatorial.py'),('CohomologyUtils.make_delta*, sparse_cocycle_to_vector, order_simplex, parity','utils.py'),('_is_one_cocycle, _is_two_cocycle','toroidalcoords.py, complexprojectivecoords.py')],observe=['dreimac.combinatorial','dreimac.utils.CohomologyUtils'])
p('C18','Example generators return the requested samples of the stated spaces',
 'For every choice of its parameters each example generator returns as many points as requested, in the stated ambient dimension, all of them on the stated space (within the stated noise) with the requested radii, sizes and patch dimensions, and not confined to a part of it. The same parameters and seed always give the same sample whatever was drawn before, a different seed gives a different sample, and the generators of distance matrices return symmetric non-negative matrices with zero diagonal that agree with the points returned and with the identifications defining the space.',
 ['inputs','histories'],'all small parameter combinations and seeds of every generator, and all orders of two calls',
 'Tests use a few generators with one parameter setting each as data and do not look at the samples.',
 ['utils.py'],[('GeometryExamples','utils.py')],observe=['GeometryExamples'])
p('C19','Coordinates depend only on the metric, not on how the data is presented',
 'The same data given as a point cloud, as a square distance matrix, or as a rectangular matrix of distances from the landmarks to all points yields the same diagrams and, up to the symmetries of the target, the same coordinates at every point. Number type, memory layout and writability of the array, isometries and (up to scaling of diagrams) uniform scaling of the data, reordering of the points that are not landmarks, and presence of further data points that are not landmarks make no difference to circular coordinates of the points present, and the first four make none to any coordinate type.',
 ['inputs','configurations'],'all combinations of a bounded number of presentation changes of small data sets, for every coordinate type',
 'Each test presents each data set in one way only.',
 ['emcoords.py','toroidalcoords.py','projectivecoords.py','complexprojectivecoords.py','lenscoords.py'],[('EMCoords.__init__','emcoords.py'),('EMCoords.get_covering_partition','emcoords.py')],observe=['constructors and get_coordinates of every class'])
p('C20','Plots show each datum at its coordinates on the requested axes',
 'For every data set, patches are drawn one per row at the position given for that row with a common colour scale, or on distinct cells of the smallest square grid that fits them; projective scatter plots draw each point at its stereographic coordinates with its own colour. Every helper that takes optional axes draws on those given (the current axes otherwise) and returns them; the boundary helpers draw the unit circle or sphere (one per hemisphere, 2.5 apart) that bounds the projection, and the equal-aspect helper makes the three ranges equal without moving their centres or cutting off what was visible.',
 ['inputs','configurations'],'all small numbers and positions of patches or points, axes given or current, axis limits from a grid',
 'No test draws anything.',
 ['plotting_utils.py'],[('PlotUtils','plotting_utils.py')],observe=['PlotUtils'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import sys
print(len(P))
