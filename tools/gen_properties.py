#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

MATS = ["matrix2x2.rs", "matrix3x3.rs", "matrix4x4.rs", "matrix5x5.rs", "matrix6x6.rs"]
VECS = ["vector2.rs", "vector3.rs", "vector4.rs", "vector5.rs", "vector6.rs"]

p("C01", "Matrix and matrix-vector arithmetic follows the textbook definitions",
  "For every size from 2x2 to 6x6 and every numeric element type, sum, difference, negation, scaling and division by a scalar (also scalar on the left where offered), matrix*matrix, matrix*column-vector and row-vector*matrix, and the += and -= forms, give exactly the textbook result for integers and the textbook result up to rounding for floats. "
  "Every entry of the result depends on the right entries of the operands, so the ring laws (associativity, distributivity, identity and zero elements, (AB)^T = B^T A^T) hold.",
  ["inputs"], "all matrices/vectors of sizes 2..6 over signed, unsigned and floating element types whose exact results are representable, and all chains of in-place and by-value operations on them",
  "the tests multiply one or two fixed matrices per size; each of the n^3 product terms and each of the hand-unrolled entries must be right for every operand, every size and every element type",
  MATS + VECS, [("hand-unrolled operator impls per size", "matrix*.rs, vector*.rs")],
  ["operator results on M22..M66 and V2..V6"])

p("C02", "Determinants are the true determinant for every size",
  "The determinant of any 2x2 to 6x6 matrix equals the signed sum over all permutations (exactly for integers and exactly representable floats, otherwise up to rounding). "
  "Hence it is multilinear and alternating in rows and columns, multiplicative, unchanged by transposition, and zero for every matrix with linearly dependent rows.",
  ["inputs"], "all square matrices of sizes 2..6, including sparse, permutation, triangular, rank-deficient, badly scaled and integer ones",
  "the tests fix two or three matrices per size, so a wrong sign or swapped index in one of the up to 720 terms of the hand-expanded formulas can cancel or hit a zero",
  MATS, [("hand-expanded cofactor formulas", "matrix*.rs LinearAlgebra::det")], ["det()"])

p("C03", "A returned matrix inverse is a true inverse, refused only if det is ~0",
  "For every float matrix from 2x2 to 6x6, inversion returns a matrix X with A*X = X*A = I up to rounding amplified by the conditioning of A, whenever |det A| is at least machine epsilon of the element type. "
  "It returns no inverse exactly when |det A| is below machine epsilon, and the input is not modified.",
  ["inputs"], "all f32 and f64 matrices of sizes 2..6, with determinants from far above to far below machine epsilon, of either sign, any sparsity pattern and graded scaling",
  "the tests invert about one matrix per size; the n^2 hand-expanded cofactors and the singularity threshold have to be right for every matrix",
  MATS + ["utils.rs"], [("adjugate / determinant with nearly_zero guard", "matrix*.rs LinearAlgebra::inverse"), ("nearly_zero", "utils.rs")], ["inverse()"])

p("C04", "QR factorisation yields orthonormal Q, upper triangular R and A = QR",
  "For every float matrix from 2x2 to 6x6 with |det| at least machine epsilon, QR returns Q with orthonormal columns and R upper triangular with positive diagonal such that Q*R = A, up to rounding (orthogonality may degrade with the condition number). "
  "It returns nothing exactly when |det| is below machine epsilon.",
  ["inputs"], "all f32 and f64 matrices of sizes 2..6: dense, sparse, permuted, triangular, negative-determinant, nearly dependent columns",
  "the tests check one decomposition per size, typically only the product",
  MATS, [("Gram-Schmidt over columns", "matrix*.rs LinearAlgebra::qr")], ["qr()"])

p("C05", "LU with pivoting reproduces the permuted matrix and the determinant",
  "For every float matrix with no all-zero row, the packed LU result read as unit lower triangle L and upper triangle U, together with the returned sequence of row interchanges, satisfies P*A = L*U up to rounding relative to the largest entry of A (a pivot that vanishes may be replaced by 1e-40). "
  "Each recorded interchange names a row at or below its pivot, and the returned determinant equals det A up to rounding including the sign contributed by the interchanges.",
  ["inputs"], "all f32/f64 matrices of sizes 2..6 with nonzero rows, including zero leading pivots, permutations of every sign, singular and graded matrices",
  "the tests factor one matrix per size; pivoting makes the executed path data-dependent",
  MATS, [("Crout/Doolittle elimination with scaled pivoting", "matrix*.rs lu()")], ["lu()"])

p("C06", "Matrix accessors, views and constructors agree on one element layout",
  "For every matrix size, building from rows, from column vectors or with the construction macros, reading or writing with [i] and [(i,j)], shape, rows/columns as vectors, diagonal, strict upper and lower triangle lists, submatrices, flattened list, transpose, trace, identity, zeros, for_each and copying a 3x3 block into a quadrant of a 6x6 all refer to the same row-major element positions. "
  "Reading never changes the matrix and writing one element changes that element only.",
  ["inputs", "histories"], "all matrices of sizes 2..6 with pairwise distinct entries (so a misplaced element is visible), all index pairs, and arbitrary sequences of writes and reads",
  "tests use a single matrix per accessor and several accessors have no test; every index of every size has to be right",
  MATS, [("Index/IndexMut, get_*, transpose, new_from_vecs", "matrix*.rs")], ["accessor results"])

p("C07", "Vector operations follow their component-wise and geometric definitions",
  "For vectors of 2 to 6 components, sum, difference, negation, scaling, division, scalar-on-the-left product, dot product, the assignment forms, zero/one/axis constructors, zero test, array conversion and boolean AND give the component-wise result, exactly for integers and up to rounding for floats. "
  "The 3-component cross product is bilinear, anticommutative, orthogonal to both factors and right-handed.",
  ["inputs"], "all vectors of sizes 2..6 over integer, unsigned, boolean (AND) and floating element types whose exact results are representable",
  "one example per operation and size in the tests; each unrolled component must be right for all inputs",
  VECS, [("hand-unrolled operator impls", "vector*.rs")], ["operator results"])

p("C08", "Norms and normalisation of vectors and matrices are mathematically right",
  "For every vector, norm2 is the Euclidean length, norm_l the sum of absolute values and norm_inf the largest absolute value of the components; the norm of a matrix is the square root of the sum of its squared entries. "
  "Normalising any nonzero float vector gives a unit-length vector in the same direction, normalising the zero vector reports an error and never a NaN, and the vector normalised is itself left unchanged.",
  ["inputs"], "all vectors of sizes 2..6 and matrices of sizes 2..6, with positive, negative, mixed-sign and zero entries and magnitudes across the range where squares neither overflow nor underflow; signed and unsigned integers for norm_inf/norm_l",
  "tests use one vector per size, mostly with positive entries",
  VECS + MATS + ["slices_methods.rs", "errors.rs"], [("norm2/norm_l/norm_inf/normalize", "vector*.rs, slices_methods.rs"), ("LinearAlgebra::norm2", "matrix*.rs")], ["norm results", "normalize() result"])

p("C09", "2x2 real eigenvalues exist exactly when real and solve the matrix",
  "For every 2x2 float matrix, real eigenvalues are returned exactly when the characteristic polynomial has a non-negative discriminant (beyond rounding), and then both returned values are the two roots: their sum is the trace, their product the determinant. "
  "A matrix with complex eigenvalues yields none.",
  ["inputs"], "all 2x2 f32/f64 matrices: symmetric, triangular, rotations, defective, with repeated, zero or negative eigenvalues",
  "the tests use one or two matrices",
  ["matrix2x2.rs"], [("quadratic formula", "matrix2x2.rs real_eigenvals")], ["real_eigenvals()"])

p("C10", "Quaternion algebra is the Hamilton algebra",
  "Quaternion sum, difference, negation, scaling, Hamilton product, conjugate, dot, squared norm, norm, division and inverse satisfy the defining relations (i^2=j^2=k^2=ijk=-1, distributive, associative, conj(pq)=conj(q)conj(p), |pq|=|p||q|, q*q^-1 = q^-1*q = 1, (p/q)*q = p) up to rounding for all quaternions. "
  "The inverse is refused only for a quaternion whose norm is (nearly) zero.",
  ["inputs"], "all finite f32/f64 quaternions, unit and non-unit, pure, real, nearly zero, and integer-valued ones where the result is exact",
  "tests check single products; every term and sign must be right for all operands",
  ["quaternion.rs"], [("operator impls, inverse, conj", "quaternion.rs")], ["operator results", "component accessors"])

p("C11", "Quaternions and rotation matrices describe the same rotation",
  "Rotating a vector by a unit quaternion, by q v q*, and by the matrix converted from it give the same vector, preserve lengths, angles and handedness, and composing rotations corresponds to multiplying quaternions and multiplying matrices. "
  "Converting any proper rotation matrix to a quaternion gives a unit quaternion that converts back to the same matrix, including rotations by half a turn about any axis.",
  ["inputs"], "all unit quaternions, all proper rotation matrices (every branch of the conversion, angles 0, small, near and equal to pi about arbitrary axes) and all vectors",
  "the tests sample a few axis-aligned rotations; the matrix-to-quaternion conversion is piecewise with four branches",
  ["quaternion.rs", "transformations.rs"], [("to_rotation, from_rotation, Mul<V3>", "quaternion.rs"), ("homogeneous_from_quaternion", "transformations.rs")], ["to_rotation", "from_rotation", "q*v"])

p("C12", "Axis-angle and Euler-angle conversions of quaternions are consistent",
  "Building a quaternion from an axis and angle, from a rotation vector, or from yaw-pitch-roll gives exactly that rotation (Z by yaw, then Y by pitch, then X by roll, right-handed), and reading back its axis/angle or yaw-pitch-roll gives values that rebuild the same rotation, with pitch within a quarter turn of zero. "
  "This holds at gimbal lock (pitch of plus or minus a quarter turn), at zero rotation (no axis is reported) and for angles beyond a full turn or negative.",
  ["inputs"], "all unit axes and all angles including 0, tiny, +-pi/2, +-pi, +-2pi and larger, every quadrant combination of yaw/pitch/roll, f32 and f64",
  "tests check a handful of angle triples; the conversions are piecewise and singular at special angles",
  ["quaternion.rs"], [("rotation, rotation_norm_encoded, from_euler_angles, to_euler_angles, get_angle, get_axis, axis_angle", "quaternion.rs")], ["conversion results"])

p("C13", "Quaternion exp, ln, power, square root, sin and cos are true functions",
  "Quaternion exponential, logarithm, power, square root, sine and cosine extend the real/complex functions: on quaternions sharing one imaginary axis they equal the complex function, and exp(ln q) = q, sqrt(q)^2 = q, q^n for integer n equals repeated multiplication, sin^2+cos^2 = 1, up to rounding. "
  "Real quaternions (zero imaginary part) give the real function, and none of them turns a finite input in the function's domain into NaN.",
  ["inputs"], "all quaternions away from branch cuts and zero, of any axis and moderate norm, including real positive, pure imaginary, tiny imaginary part and unit quaternions",
  "tests check single values; these are multi-branch formulas with divisions by the imaginary norm",
  ["quaternion.rs"], [("exp, ln, pow, sqrt, sin, cos, argq", "quaternion.rs")], ["function results"])

p("C14", "slerp moves at constant speed along the shortest arc between rotations",
  "For all unit quaternions a, b and every t in [0,1], slerp(a,b,t) is a unit quaternion that is the rotation a at t=0, the rotation b at t=1, and in between lies on the shortest great arc with its angle from a equal to t times the total angle (up to rounding, and to the chord error of linear interpolation where the arc is below 1e-3). "
  "This holds for identical, nearly identical and opposite-sign quaternions as well, and the result never is zero or NaN.",
  ["inputs"], "all pairs of unit quaternions (angle between them from 0 to pi, either sign of the dot product, nearly parallel within 1e-9..1e-2) and all t in [0,1]",
  "tests check one or two pairs; three code paths depend on the pair",
  ["quaternion.rs"], [("slerp", "quaternion.rs")], ["slerp()"])

p("C15", "Quaternion results never depend on how the operands were produced",
  "After any sequence of quaternion operations, norm, conjugate, normalise, inverse, division and rotation of the result agree with the values of its four components: a cached normalisation state never makes the result differ from that of a quaternion freshly built from the same components. "
  "Normalising gives a unit quaternion with the same direction and refuses only (nearly) zero ones; the time derivative of a rotation is half the product of the angular velocity (as a pure quaternion, on the left) and the quaternion. Two quaternions with equal components are equal.",
  ["histories", "inputs"], "all finite sequences of constructors, arithmetic, normalisation, conjugation, inversion, scaling, negation, interpolation and functions applied to a pool of quaternions",
  "tests apply one operation to a freshly built value; the stale-cache failure needs a particular chain of operations",
  ["quaternion.rs"], [("normalized flag", "quaternion.rs")], ["norm2, normalize, inverse, /, * after an operation history"])

p("C16", "Dual quaternion algebra, conjugates, division and inverse are right",
  "Dual quaternions form the ring a+eps*b with eps^2=0: sum, difference, negation, scaling, product, the three conjugations, norm, division and inverse obey its laws, in particular q*q^-1 = 1 and (p/q)*q = p for every q with nonzero real part, commuting or not. "
  "A normalised rigid-motion dual quaternion is recognised as normalised, one whose real part is clearly not of unit norm is not, and normalising yields a unit real part with an orthogonal dual part, i.e. a rigid motion.",
  ["inputs", "histories"], "all finite dual quaternions: unit rigid motions, pure rotations, pure translations, non-unit, and results of chains of operations on them",
  "tests check a few motions with commuting or identical operands",
  ["dual_quaternion.rs"], [("operator impls, conj*, inverse, norm, normalize, is_normalized", "dual_quaternion.rs")], ["operator results", "real(), dual()"])

p("C17", "Dual quaternions act as the rigid motion they were built from",
  "Every way of building a unit dual quaternion (rotation, translation, rotation and translation, homogeneous matrix, rotation matrix and vector, array, point) represents that rigid motion: extracting rotation, translation and homogeneous matrix gives it back, transforming a point gives R*p+t, and multiplying dual quaternions composes the motions. "
  "Rotation followed by inversion undoes the motion, distances between transformed points are preserved.",
  ["inputs"], "all rotations (including identity and half turns), all translations, all points, and chains of motions",
  "tests check a few motions; consistency must hold among all representation pairs",
  ["dual_quaternion.rs", "quaternion.rs", "transformations.rs"], [("new_from_*, to_*, transform_point, get_translation", "dual_quaternion.rs")], ["conversion results", "transform_point"])

p("C18", "Screw parameters, powers, logarithm and screw interpolation are consistent",
  "The screw parameters of any rigid motion that rotates rebuild that motion (a pure translation is reported as its direction, angle zero and its length); raising a motion to a power scales its angle and slide along the same screw axis, so powers add up and power 1 is the motion itself; the logarithm is half the angle and slide times the axis line. "
  "Screw interpolation starts at the first pose, ends at the second and moves at constant screw speed along the shortest rotation, with no NaN or panic even for equal poses, pure translations or pure rotations.",
  ["inputs"], "all rigid motions: pure rotation, pure translation, identity, screws with any axis, angle and slide, pose pairs of either sign and all tau in [0,1]",
  "tests check one screw; each degenerate case (no rotation, no translation, equal poses, opposite signs) is its own code path",
  ["dual_quaternion.rs"], [("get_screw_parameters, new_from_screw_parameters, pow, screw_lerp, log", "dual_quaternion.rs")], ["screw parameters", "pow", "screw_lerp", "log"])

p("C19", "Elementary rotations and Euler-angle sequences are right",
  "The planar and the x, y, z rotation builders return the right-handed proper rotation by the given angle and add angles under composition; each of the ten Euler sequences offered is the product of its elementary rotations in the named order for all angles. "
  "Extracting ZYX Euler angles from any rotation matrix gives angles that rebuild the matrix, including at gimbal lock, with pitch within a quarter turn of zero.",
  ["inputs"], "all angles (negative, zero, multiples of pi/2, beyond a turn), all offered sequences, all proper rotation matrices, f32 and f64",
  "tests check single angles of one or two sequences",
  ["transformations.rs"], [("rot2, rotx, roty, rotz, euler_to_rotation, rotation_to_euler", "transformations.rs")], ["returned matrices and angles"])

p("C20", "Rotation exponential and logarithm are mutual inverses",
  "For every axis and angle, the matrix exponential of the skew matrix of angle*axis, and the axis-angle builder, give the rotation by that angle about that axis; the matrix logarithm of any rotation is a skew matrix whose exponential is that rotation, with angle in [0, pi]. "
  "Identity, tiny angles and half turns about any axis are included, and inverting a rotation equals its transpose; splitting a rotation vector into unit axis and angle loses nothing.",
  ["inputs"], "all unit axes (coordinate axes, diagonal, axes with zero components, generic) and all angles in [-4pi,4pi] with emphasis on 0, tiny, near-pi and pi",
  "tests check one or two rotations; the logarithm has four branches, three of which only fire at exactly a half turn",
  ["transformations.rs"], [("matrix_exponential, matrix_log, rotation_from_axis_angle, axis_angle, rotation_inverse", "transformations.rs")], ["returned matrices"])

p("C21", "Rigid-motion exponential and logarithm are mutual inverses",
  "For every twist (including pure translation, pure rotation and any pitch), the se(3) exponential is the screw motion it generates and the logarithm of any rigid transform is a twist matrix whose exponential is that transform. "
  "The screw-to-twist builder and the twist splitter agree with these: a screw through point q with axis s and pitch h leaves its axis in place and advances h per radian.",
  ["inputs"], "all twists: pure translation, pure rotation, screws of any axis/pitch and angle in [0,pi], and all rigid transforms including identity",
  "tests check one twist per function; the pure-translation path and near-identity path are separate",
  ["transformations.rs"], [("matrix_exponential6, matrix_log6, twist_to_se3, se3_to_twist, axis_angle6, screw_to_axis", "transformations.rs")], ["returned matrices and vectors"])

p("C22", "Homogeneous transforms are built, split and inverted consistently",
  "Building a homogeneous transform from rotation (matrix, quaternion or planar) and translation puts each in its place with bottom row (0,..,0,1); splitting it returns the same parts. "
  "The homogeneous inverse composed on either side gives the identity, the inverse transform of a point undoes the transform, and translation builders translate by exactly the vector given.",
  ["inputs"], "all proper rotations, all translations and points in 2D and 3D, f32 and f64",
  "one example per function in the tests",
  ["transformations.rs"], [("homogeneous_from_*, se3_from_parts, get_parts, homogeneous_inverse*, translation_2d/3d", "transformations.rs")], ["returned matrices, parts"])

p("C23", "Skew, vex, twist and adjoint maps are the right linear maps",
  "The skew matrix of a vector times another vector is their cross product, the vex operators undo the skew operators in 2D, 3D and the augmented and twist forms, and converting twists to se(3) matrices and back is lossless. "
  "The adjoint of a rigid transform maps twists by conjugation (Ad(T) applied to a twist equals T*[twist]*T^-1), so it is multiplicative over composition and inverse.",
  ["inputs"], "all vectors, twists and rigid transforms",
  "one example per map in the tests; every entry and sign of each map must be right",
  ["transformations.rs"], [("skew_*, vex_m22, ksi, twist_to_se3, se3_to_twist, adjoint", "transformations.rs")], ["returned matrices, vectors"])

p("C24", "Rotation predicates and the distance to SO(n) agree with the definition",
  "The 3x3 rotation test accepts the identity and exact rotations and the 4x4 test accepts every rigid transform built by the library up to rounding, and both reject every matrix whose (upper-left) block is clearly not orthogonal or has determinant -1, whatever its determinant; the 4x4 test also rejects a bottom row that clearly is not (0,0,0,1). "
  "The distance to the rotation manifold is (up to rounding) zero for rotations and otherwise the Frobenius norm of R^T R - I, or a huge value for non-positive determinant.",
  ["inputs"], "all 3x3/4x4 matrices: rotations, reflections, scalings of unit determinant, shears of unit determinant, singular, random",
  "the tests check a rotation and at most one non-rotation",
  ["utils.rs", "transformations.rs"], [("is_rotation, is_rotation_h", "utils.rs"), ("distance_to_manifold", "transformations.rs")], ["predicate results"])

p("C25", "Approximate comparisons are symmetric, reflexive and honour the tolerance",
  "Approximate equality of numbers is reflexive and symmetric, compares relatively for ordinary numbers and absolutely when one side is zero or both are below the smallest normal number, accepts everything well within the tolerance, and rejects everything clearly outside it as well as NaN and opposite infinities. "
  "The vector and dual-quaternion comparisons hold exactly when every pair of components compares equal, and the absolute comparison when the difference is below the tolerance.",
  ["inputs"], "all pairs of floats including zeros of both signs, subnormals, extremes, infinities and NaN, all tolerances; vectors and dual quaternions differing in any single component",
  "tests check three pairs",
  ["utils.rs"], [("nearly_equal, nearly_zero, compare_vecs, compare_floats, compare_dual_quaternions", "utils.rs")], ["boolean results"])

p("C26", "Slice helpers compute what they name on slices of any length",
  "On every non-empty slice, find_max_min returns the largest and smallest element with the first position of each, dot/norms/projection match their definitions, in-place normalisation gives unit length in the same direction, and the element check is true exactly when some element is zero within tolerance. "
  "Inputs that are only read are unchanged, and dot refuses slices of different lengths.",
  ["inputs"], "slices of length 1..64 with ties, extremes at the first or last position, negative-only entries, duplicates; integer and floating types",
  "tests use one three-element slice",
  ["slices_methods.rs"], [("find_max_min, norm_inf, norm_l, norm2, dot, normalize, project_x_over_y, check_elements", "slices_methods.rs")], ["returned values"])

p("C27", "Displaying a value writes its elements in order and nothing elsewhere",
  "Formatting any vector, matrix, quaternion or dual quaternion writes every component, in row-major order, floats rounded to two decimals and integers in full, into the given formatter only. "
  "It writes nothing to standard output or any other place, gives the same text each time, and propagates the formatter's errors.",
  ["inputs", "fault_sequences"], "all values (negative, large, integer typed), sinks that fail after any number of bytes, and any destination",
  "no test formats a matrix; none looks at the process's standard output",
  MATS + VECS + ["quaternion.rs", "dual_quaternion.rs"], [("fmt::Display impls", "matrix*.rs, vector*.rs, quaternion.rs, dual_quaternion.rs")], ["formatted text", "process stdout"])

p("C28", "The no_std configuration builds and computes the same results",
  "With default features off and the no-std feature on, the library compiles as a no_std crate and every public operation returns the same results as in the default configuration, up to rounding differences of the underlying elementary functions.",
  ["configurations", "inputs"], "both feature configurations on the same inputs across all modules",
  "the test suite only builds the default configuration",
  ["lib.rs"] + MATS, [("no-std feature and cfg_attr", "lib.rs, ../Cargo.toml")], ["build result", "per-operation results in both builds"])

p("C29", "Operations on finite values return: no panic, overflow, hang or mutation",
  "Every public operation on finite float inputs in its documented domain returns normally (no panic, arithmetic overflow, out-of-range index, non-termination) in debug and release arithmetic, leaves by-reference inputs unchanged, and gives identical results when repeated or run from many threads at once. "
  "Results computed in single precision agree with double precision up to single-precision rounding.",
  ["inputs", "schedules"], "all operations on finite floats incl. zeros, signed zeros, subnormals and large magnitudes; any number of threads; f32 and f64",
  "tests use benign values on one thread in one build mode",
  MATS + VECS + ["quaternion.rs", "dual_quaternion.rs", "transformations.rs"], [("pure functions over Copy values, deny(unsafe_code)", "lib.rs")], ["return vs. panic", "bitwise repeatability", "f32 vs f64 results"])

p("C30", "Equality and zero/one tests are exactly component-wise, whatever the origin",
  "Two vectors, matrices, quaternions or dual quaternions of any size and element type compare equal exactly when all corresponding components compare equal: any difference in one component (even in the last bit, or a NaN) makes them unequal, and nothing but the components (such as how a value was produced) matters. "
  "is_zero and is_one hold exactly for the zero and the identity element, zero/one/set_zero/set_one produce those elements, and a copy is independent of its original.",
  ["inputs", "histories"], "all pairs of values, including special floats, single-bit differences, permuted and sign-flipped components, and values with any history",
  "tests compare against a few expected values, nearly always equal ones",
  MATS + VECS + ["quaternion.rs", "dual_quaternion.rs", "slices_methods.rs"], [("PartialEq, Zero, One, Copy impls", "all value types")], ["result of == and !=", "is_zero, is_one"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
