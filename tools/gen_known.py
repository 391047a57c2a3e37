import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [
 ("C05","de1bebb","complex projective coordinates of small data sets ignored the class (closure array frozen by numba)"),
 ("C06","0bbc908","every LensCoords query raised AttributeError (np.complex_ was removed from numpy)"),
 ("C02","5410e9c","lattice reduction used a wrong Gram-Schmidt step, so bases of three or more classes were not reduced (or the loop did not end)"),
 ("C03","6fb5133","toroidal coordinates raised ValueError when two selected classes needed their integer lift fixed"),
 ("C07","e5521e4","partition of unity truncated to integers for integer distance matrices"),
 ("C15","1b46b48","rotmat gave NaN for nearly parallel vectors and the identity for opposite ones"),
 ("C16","59d001d","lens_3D_to_disk_3D gave NaN for points with |p2| rounding above 1"),
 ("C18","00edc7c","moving_dot ignored its dim parameter"),
 ("C18","e7aa80c","moore_space_distance_matrix was not symmetric"),
 ("C11","6f6f42f","one undefined (uncovered) point made the eigenvalue solver fail and changed the coordinates of all points"),
 ("C11","5edd7fb","one-by-one variance of complex data was computed with an unconjugated direction"),
 ("C11","77608fa","one-by-one reduction failed for proj_dim=0 and for proj_dim >= number of landmarks"),
 ("C10","1beb465","get_coordinates modified the stored representative cocycles, so later answers depended on earlier queries"),
 ("C13","1216993","landmark_geodesic_distance did not return a permutation when points were repeated"),
 ("C15","21efae7","circle_to_3dnorthpole modified its argument"),
 ("C05","49b8d2d","NameError (scipy not imported) whenever the integer lift of a degree-two class needed correcting"),
 ("C11","7698e75","one-by-one variance was NaN when a point lies on the direction removed (arccos of 1 + rounding)"),
 ("C02","bb174b2","the Gram matrix reported for toroidal coordinates was B B^T instead of B^T B, not the one of the coordinates returned"),
 ("C16","12c94f2","lens_3D_to_disk_3D chose the wrong sector for some points when q is 17, 29, 37, 41, ... (floor of an integer rounded down)"),
 ("C19","830d8f4","with the exponential bump function, distance matrices of small integer types (e.g. int16 distances above 181) gave wrong weights: the squared distance overflowed"),
 ("C03","8b8ccac","the error about a missing integral lift named the position in cocycle_idxs instead of the class"),
]
findings = [
 dict(property="C03", key="milp-torsion-hang",
      what="scipy.optimize.milp, called with unbounded integer variables for a class without an integer lift, "
           "may not return (e.g. Moore space M(Z/3,1) with 14 vertices in order i -> 5 i mod 14 beside an 8-cycle, prime 3, class 1)",
      site="dreimac/toroidalcoords.py: ToroidalCoords.get_coordinates, milp(...) (HiGHS cycles without end and without honouring a time limit)"),
]
d = {"findings": findings, "fixed": ["fixed: property=%s %s %s" % t for t in fixed]}
json.dump(d, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
