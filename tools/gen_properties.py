#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook="none"):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": m, "where": ", ".join(files)} for m in mechanism], "observe_at": list(observe), "hook_needed": hook}})

MAT, VEC, LIN = "linalg/src/matrix.rs", "linalg/src/vector.rs", "linalg/src/linalg.rs"
COM, UT, QU = "linalg/src/common.rs", "utils/src/lib.rs", "quaternion/src/quaternion.rs"
GY, AC, MG = "open_ahrs/src/gyrometer.rs", "open_ahrs/src/accelerometer.rs", "open_ahrs/src/magnetometer.rs"
AR, AQ, DA, OC = "open_ahrs/src/ar.rs", "open_ahrs/src/aqua.rs", "open_ahrs/src/davenport.rs", "open_ahrs/src/common.rs"
CX = "dsp/src/complex.rs"

prop("L01", "Containers have one lifecycle and dimensions always within 1..4",
  "A matrix or vector is usable only after it has been given dimensions between 1 and 4 once; giving dimensions again is refused, re-dimensioning is refused before that, and every operation on a container that has none is refused with an error instead of succeeding. "
  "At every moment the reported dimensions are the ones last accepted, and a fresh container reads as all zeros.",
  ["histories", "inputs"], "Every finite sequence of public container calls, over every 8-bit dimension argument, for matrices and for real and byte vectors.",
  "The unit tests initialise once with valid sizes and never look at the order of calls, at sizes 0/5/255, or at operations before initialisation.",
  [MAT, VEC, COM], ["initialized flag tested by every accessor", "is_valid_rows_number / is_valid_cols_number on every size change"],
  [("rows, cols, initialized", "dimensions and lifecycle flag", "Matrix, Vector")], ["return value of every call", "get_rows/get_cols/is_initialized"])

prop("L02", "Reading a container returns exactly what was last written there",
  "Reading an element, row, column or diagonal returns bit-for-bit the value most recently stored at that position by any writing call (zero, including a negative one, reads as zero), and no write alters any other position. Positions outside the current dimensions are refused with an error naming the row or the column, for reads and for writes alike, without touching the container.",
  ["histories", "inputs"], "Every sequence of element/row/column/fill/identity/copy writes and reads, every dimension pair up to 4x4, every 8-bit index, every finite 32-bit float.",
  "Tests write a handful of 2x2 and 3x3 matrices and compare a few elements; they do not quantify over positions, shapes, neighbours left untouched, or histories.",
  [MAT, VEC], ["row-major index computation in one place", "is_valid_row / is_valid_col before every access"],
  [("elements", "linear storage of the container", "Matrix, Vector")], ["get_element over all positions after every call"])

prop("L03", "No container ever holds a NaN or an infinity",
  "Whatever is attempted, every element readable from any matrix or vector is a finite number. A call that would have to store a NaN or an infinity reports that as an error instead of succeeding.",
  ["histories", "inputs"], "Every sequence of container and quaternion operations over all 32-bit floats including NaN, infinities, subnormals and values whose sums, products or powers overflow.",
  "Tests never pass non-finite values nor operands that overflow, and cannot cover all operations that compute and store.",
  [MAT, VEC, UT, QU], ["every value goes through the validity check of the element setter"],
  [("elements", "stored values", "Matrix, Vector")], ["all elements after every call, and the returned containers"])

prop("L04", "Row and column edits move exactly the right elements",
  "Inserting a row or column puts the given vector at the requested position, shifts the later ones by one and keeps everything else in order; deleting a row returns it and closes the gap; transposing swaps row and column of every element; extracting a row, column or diagonal k and conversion of a vector to a column matrix copy exactly the designated elements. "
  "An edit that cannot be carried out (wrong length, position beyond the end, size limit reached, nothing left) is refused and leaves matrix and vector exactly as they were.",
  ["histories", "inputs"], "Every sequence of structural edits on every shape up to 4x4, every position 0..255, every vector length, every diagonal index -128..127.",
  "Tests perform one deletion and a few insertions on fixed matrices; sequences of edits, refusals and their after-state are not reachable by enumerated examples.",
  [MAT, VEC], ["bounds validated before the size is changed", "element-wise shifting loops"],
  [("rows, cols, elements", "shape and storage", "Matrix")], ["full projection of both objects after every call"])

prop("L05", "A refused container operation changes nothing",
  "When an operation on matrices, vectors or quaternions is refused because a size, shape, index, interpolation parameter or initialisation state is wrong, every object involved keeps the value it had before the call, and the error says which kind of precondition failed. Operands that are only read are never modified, whether the call succeeds or not.",
  ["fault_sequences", "histories", "inputs"], "Every operation with every combination of initialised/uninitialised operands and matching/mismatching shapes, at any point of a call history.",
  "Tests use valid operands only, so no refusal and no state after a refusal is ever observed.",
  [MAT, VEC, QU, LIN], ["preconditions tested before the first write", "shared references for operands"],
  [("rows, cols, elements, initialized", "object state", "Matrix, Vector")], ["projection of all objects before and after every refused call"])

prop("L06", "No call makes the library panic or hang",
  "Every public operation of every crate returns a value or an error for every argument and in every state: it never panics (including arithmetic overflow in checked builds), never indexes out of bounds and never fails to return.",
  ["histories", "inputs", "configurations"], "Every sequence of public calls with arbitrary arguments (all 8-bit sizes, indices and orders, all floats, initialised or not), in std and no_std builds. The factorial helper is only quantified over arguments whose factorial fits 64 bits.",
  "Tests exercise well-formed inputs; a panic needs a particular size, index, order or uninitialised state.",
  [MAT, VEC, LIN, QU, AR, AQ, DA, GY, AC, MG, CX, UT], ["explicit range checks before arithmetic on sizes and indices"],
  (), ["unwinding caught and logged as an outcome", "watchdog"])

prop("L07", "Displays show every stored number, in place and rounded to three decimals",
  "Displaying a matrix writes one line per row with the elements of that row in order, and displaying a vector or the attitude of the angular-rate filter writes one line per element; every number appears rounded to three decimals, whatever its magnitude. "
  "A display changes nothing, and one that is refused because the object is not initialised writes nothing.",
  ["histories", "inputs"], "Every shape up to 4x4 and every vector length, all finite 32-bit floats, at any point of a call history, for displays of matrices, vectors and estimated attitudes.",
  "The tests call the displays but nothing looks at what they write.",
  [MAT, VEC, AR], ["row-by-row printing loops with a three-decimals format"],
  [("rows, cols, elements", "object state", "Matrix, Vector")], ["standard output of the display calls, read word by word"])

prop("A01", "Element-wise arithmetic is exact and its variants agree",
  "Adding or subtracting matrices, vectors or scalars, scaling by a scalar, and raising elements to a power yield in every position the arithmetic result of the corresponding operands. The in-place, into-destination and returning forms of an operation give the same result, and the tolerance comparison of two containers is true exactly when shapes match and all elements differ by no more than the tolerance.",
  ["inputs", "histories"], "All shapes up to 4x4, all operands on a fine dyadic grid (exactly representable), all forms, chained in arbitrary order.",
  "Each form is tested, if at all, on one fixed matrix; agreement between forms and exactness over shapes and histories is not.",
  [MAT, VEC], ["identical loops over rows and columns in each form"], (), ["destination/returned container after each call"])

prop("A02", "Matrix, dot and outer products, trace and norms are exact",
  "The matrix product, outer product, dot product and trace equal their textbook definitions over the current operands, for all compatible shapes including rectangular ones, and incompatible shapes are refused. Vector and Frobenius norms are the square root of the sum of squares, a vector norm not above the library tolerance (1e-4) counting as zero.",
  ["inputs", "histories"], "All compatible and incompatible shape triples up to 4x4 with exactly representable elements; norms over magnitudes from 1e-6 to 1e9.",
  "Tests multiply two fixed matrices; 64 shape triples and destinations holding stale data are out of reach.",
  [MAT, VEC], ["triple loop accumulating from zero"], (), ["returned scalar/container, destination after the call"])

prop("A03", "The determinant has the right value and sign",
  "For every square matrix of size 1 to 4 both determinant computations return the determinant within rounding, including its sign; a singular matrix yields zero within rounding or is reported as singular, and a clearly non-singular one is never reported as singular.",
  ["inputs"], "All square shapes; integer matrices (all 2x2 and 3x3 over a small range plus random 4x4), all signed permutation matrices, scaled copies, products and row-swapped variants.",
  "The sign depends on which rows the elimination exchanges; tests use two fixed matrices that need at most one exchange.",
  [MAT, LIN], ["LU with partial pivoting and parity of the row exchanges", "Leibniz expansion"], (), ["returned value"])

prop("A04", "Inversion and linear solving satisfy their defining equations",
  "For every clearly non-singular square matrix, inversion succeeds and the result times the original is the identity within rounding, and factorising then solving yields a vector that satisfies the linear system. A singular matrix is refused by inversion or by factorise-and-solve, and refusal leaves the matrix as it was. The adjugate of an orthogonal matrix is its transpose times its determinant.",
  ["inputs", "histories"], "Integer matrices of size 1..4 with every pivoting pattern, scaled, repeated inversion, singular matrices of every rank.",
  "Tests invert one matrix whose pivots are in place; zero or negative pivots and rank deficiency are not covered.",
  [MAT, LIN], ["LU with partial pivoting, forward and backward substitution with the permutation"], (), ["inverse/solution after the call, matrix after a refusal"])

prop("A05", "Factorisations reconstruct the matrix and have the promised shape",
  "LR and Crout factorisations return a unit lower and an upper triangular factor whose product is the matrix whenever all leading minors are clearly non-zero; the QR decomposition of every square matrix, singular or not, returns an orthogonal and an upper triangular factor whose product is the matrix; Cholesky returns a lower triangular factor whose product with its transpose is the matrix for every clearly positive definite matrix, and refuses non-symmetric or not positive definite ones. The pivoted LU factors multiply back to the row-permuted matrix.",
  ["inputs"], "Integer-generated matrices of size 1..4 (products of integer factors, random integers, rank-deficient for QR), scaled by powers of two.",
  "Tests factorise one or two matrices and print or compare once; triangular shape and reconstruction over all sizes is not checked.",
  [MAT, LIN], ["accumulation reset for each element", "Gram-Schmidt", "column-wise Cholesky"], (), ["returned factors"])

prop("A06", "Matrix predicates answer according to their definitions",
  "Square, symmetric, upper triangular, lower triangular, orthogonal, special orthogonal and positive definite tests return true exactly for the matrices that have the property (within the library tolerance, 1e-4), for square and, where meaningful, rectangular shapes; a singular matrix is never called orthogonal or special orthogonal, and one with a clearly negative leading minor never positive definite.",
  ["inputs"], "Integer and half-integer matrices of all shapes up to 4x4 including all signed permutations, rotations with rational entries, semidefinite, indefinite and single-defect matrices whose defect sits at each position.",
  "Tests ask two or three predicates about one matrix each; single-defect and rectangular inputs per position are not enumerated.",
  [MAT], ["element-wise comparison loops", "leading principal minors"], (), ["returned boolean"])

prop("A07", "Eigen-decomposition returns eigenpairs or reports that it did not converge",
  "When the eigen-decomposition of a symmetric matrix succeeds, each returned column is a unit vector, is mapped by the matrix to itself times the returned eigenvalue, and the columns are mutually orthogonal, within the accuracy of the iteration; when the allowed number of iterations does not suffice it reports an error rather than returning other numbers. A symmetric matrix whose eigenvalues differ clearly in magnitude is decomposed by the plain iteration within a few hundred steps.",
  ["inputs"], "Symmetric matrices of size 1..4 built from separated spectra and rational rotations, with and without shift, iteration budgets from 0 to 2000, including matrices on which the plain iteration cannot converge.",
  "No test looks at eigenpairs; convergence depends on the spectrum and on the iteration budget.",
  [LIN, MAT], ["QR iteration with relative-variation stopping rule"], (), ["returned eigenvalues and eigenvectors or error"])

prop("A08", "Normalisation and interpolation stay on the unit sphere and the segment",
  "Normalising a vector whose norm exceeds the library tolerance gives the unit vector of the same direction and otherwise the zero vector. Linear interpolation gives the weighted mean of its end points; spherical interpolation of two unit vectors that are not opposite gives a unit vector on the arc between them at the requested fraction of the angle, including both ends and coinciding vectors; a fraction outside 0..1 is refused.",
  ["inputs", "histories"], "Vectors of size 1..4, magnitudes 1e-6..1e9, all pairs of unit vectors from a dense grid incl. equal, near and orthogonal ones, fractions 0, 1 and in between, and outside.",
  "Tests contain no interpolation at all; end points and coinciding vectors are singular cases of the formula.",
  [VEC], ["division by the norm", "sine-weighted combination"], (), ["destination vector"])

prop("Q01", "Quaternion algebra obeys Hamilton's rules",
  "The product of two quaternions is Hamilton's product in both of its forms, the conjugate negates the vector part, a quaternion times its inverse is one (zero inverts to zero), component setters and getters address w, x, y, z in that order, and the real/pure/unit/identity tests hold exactly for the quaternions that have the property within tolerance. Vectors that do not have four elements are refused as quaternions by every one of these operations.",
  ["inputs", "histories"], "All pairs of quaternions with small integer and half-integer components, chained products, all vector sizes 1..4 and uninitialised ones.",
  "Tests multiply one pair; sign errors in single terms survive special operands, and the two product forms are separate code.",
  [QU, VEC], ["component formulas duplicated in two product forms"], (), ["result components"])

prop("Q02", "A unit quaternion acts as a proper rotation, consistently everywhere",
  "The matrix of a unit quaternion is orthogonal with determinant one, equals conjugation of vectors by the quaternion, and both vector rotation forms apply exactly that matrix; composing quaternions composes matrices, the conjugate gives the transpose, and a quaternion and its negative give the same matrix.",
  ["inputs"], "All 24 Hurwitz units, rational unit quaternions and random unit quaternions, rotating arbitrary vectors, in chains of compositions.",
  "Tests convert no more than a few quaternions; sign or index errors in one of nine entries vanish for special axes.",
  [QU, MAT], ["nine component formulas", "matrix-vector product"], (), ["returned matrix and vectors"])

prop("Q03", "Extracting a quaternion from a rotation matrix recovers the rotation",
  "Each of the three extraction methods applied to the rotation matrix of a unit quaternion returns, for every rotation that is not a half turn, a unit quaternion with non-negative scalar part that stands for the same rotation (for Hughes's method, whose source uses the transposed matrix convention, the conjugate). Half turns yield a unit quaternion of the same rotation axis.",
  ["inputs"], "Rotation matrices of Hurwitz, rational and random unit quaternions, with angle from 0 to 180 degrees and axes in all octants; all thresholds of the third method in -0.5..1.",
  "Tests never convert back; each branch (dominant component, sign of each axis component, small trace) needs its own rotations.",
  [QU], ["component magnitudes from the diagonal, signs from the off-diagonal differences"], (), ["resulting quaternion"])

prop("Q04", "Euler angles of a unit quaternion are finite and reproduce its rotation",
  "For every unit quaternion the three Tait-Bryan angles are finite, roll and yaw lie in [-pi, pi], pitch in [-pi/2, pi/2], and away from vertical pitch composing yaw, pitch and roll rotations in that order reproduces the rotation matrix of the quaternion. At vertical pitch the reported pitch is a quarter turn of the right sign.",
  ["inputs"], "Unit quaternions on a grid and at random, in all octants, plus quaternions whose pitch is exactly or within rounding of a quarter turn.",
  "Tests do not compute Euler angles; the failure at vertical pitch depends on the last bit of the argument.",
  [QU], ["arctangent and arcsine formulas with clamped argument"], (), ["returned angles"])

prop("Q05", "Quaternion exponential and rotation logarithm invert each other's geometry",
  "The exponential of a quaternion w+v is e^w(cos|v| + sin|v| v/|v|) (for real quaternions e^w), identically for the in-place and the returning form. The logarithm of a rotation matrix by an angle below a half turn is the skew-symmetric matrix of rotation axis times angle, zero for the identity, identically in both forms, so that rebuilding the rotation from it gives the matrix back.",
  ["inputs"], "Quaternions with |w|<=4, |v|<=2pi in all directions including real and pure ones and |v| a quarter turn; rotation matrices with angles from 0 to 3 rad about all axes.",
  "Tests never call either; special cases (real, pure, quarter turn, identity) are points, not samples.",
  [QU, MAT], ["Euler's formula", "Rodrigues' formula"], (), ["result quaternion/matrix of both forms"])

prop("S01", "Every sensor applies its calibration to every sample and reports it back",
  "Gyrometer, accelerometer and magnetometer each report, after every accepted sample, exactly the calibration matrix times (sample minus bias), where the factor named for an axis pair ab feeds raw axis a into corrected axis b; the configuration read back is the one last accepted. Nothing but initialisation works before initialisation, which works once; a rejected configuration or sample (NaN or infinity) leaves the configuration in force and the reported measurement as they were. The default calibration leaves samples as they are.",
  ["histories", "inputs", "fault_sequences"], "Every sequence of init / set configuration / get configuration / update / read calls on the three sensors and through the filters that own them, over exactly representable configurations and samples and invalid ones.",
  "Tests run one configuration through one sensor; which of twelve factors lands where, and behaviour across reconfiguration and rejection, is a product of choices.",
  [GY, AC, MG, AQ], ["configuration copied into matrix and bias vector", "bias removal then matrix product"],
  [("calibration matrix, biases, corrected measurement", "sensor state", "Gyrometer, Accelerometer, Magnetometer")], ["configuration and three axis readings after every call"])

prop("F01", "Filters initialise once, can be retried after a refused init, and guard use",
  "A filter refuses samples and attitude queries until an initialisation has succeeded, refuses a second initialisation afterwards, and an initialisation that was refused (missing gyrometer configuration, incomplete or non-finite quaternion, non-finite configuration, invalid weights) never prevents a later valid one from succeeding. After a successful initialisation the attitude is the given one (identity if none was given), and well-formed samples are accepted.",
  ["histories", "fault_sequences", "configurations"], "Every sequence of valid and invalid init, update and query calls on the angular-rate, AQUA (both modes) and Davenport filters.",
  "Tests initialise each filter once with valid data; refusal followed by retry is a history no test builds.",
  [AR, AQ, DA, OC], ["initialized flag set last"], [("initialized, sensors, attitude", "filter lifecycle", "AR, Aqua, Davenport")], ["return values, attitude"])

prop("F02", "The angular-rate filter integrates body rates by every method alike",
  "Each accepted sample of the angular-rate filter turns the attitude by the calibrated rate times the sampling period about the body axes: exactly for the closed form, by the truncated exponential series of the requested order for the series method, and by the first-order step for Euler, followed by normalisation; a zero rate leaves the attitude untouched and the attitude stays a unit quaternion. Unsupported methods are refused without changing the attitude.",
  ["histories", "inputs", "configurations"], "All methods, series orders 0..255, sampling periods, calibrations, initial attitudes in all octants and rate sequences with per-step angle up to about one radian, histories up to tens of thousands of samples.",
  "The tests start at identity and rotate about one axis, where multiplication order and series order make no visible difference, and only print the result.",
  [AR, OC, QU], ["quaternion kinematics matrix, cos/sin or power series", "normalisation after each step"],
  [("attitude", "current estimate", "AR")], ["attitude after every sample"])

prop("F03", "AQUA without gyrometer returns the attitude that explains both sensors",
  "In accelerometer-magnetometer mode each accepted pair of samples yields a unit quaternion that maps straight down to the measured acceleration direction and under whose inverse the measured field has no east-west component and points towards positive north; the result does not depend on sensor magnitudes or on earlier samples. A zero field is refused and leaves the previous attitude; a field parallel to the acceleration is either refused in the same way or yields a unit quaternion that still explains the acceleration.",
  ["inputs", "histories"], "All acceleration and field directions (all octants and branch boundaries), magnitudes 0.01..1000, all orders of samples, all calibrations.",
  "Tests print the estimate for four generated attitudes; the four branches of the construction partition the sphere.",
  [AQ, QU, MAT], ["algebraic quaternion construction with a branch per hemisphere"], [("attitude", "current estimate", "Aqua")], ["attitude after every update"])

prop("F04", "AQUA with gyrometer performs predict-and-correct on every sample",
  "In gyrometer mode each accepted sample turns the previous attitude by the first-order gyrometer step, then by the configured fraction of the rotation that aligns the predicted with the measured gravity direction, then by the configured fraction of the rotation about the vertical that aligns the field with north, and normalises; acceleration magnitude matters only through the adaptive gain. With the adaptive gain on, the gravity fraction is the full configured one while the relative magnitude error is at most the first threshold, falls linearly to zero at the second, and depends on the current sample only; a refused sample (missing gyrometer data, non-finite values, zero field, invalid thresholds) leaves the attitude unchanged.",
  ["histories", "inputs", "configurations", "fault_sequences"], "All gains and thresholds, adaptive on and off, attitudes in all octants, sample sequences containing disturbed and invalid samples followed by valid ones.",
  "Tests run four samples and print; the gain is a function of history only if implemented wrongly, which takes a disturbed sample followed by a clean one to see.",
  [AQ, QU], ["prediction, gravity correction, field correction in sequence", "interpolation with identity, linear or spherical by threshold"],
  [("attitude, gains", "filter state", "Aqua")], ["attitude after every update"])

prop("F05", "A filter held still converges to the attitude its sensors determine",
  "With constant consistent accelerometer and magnetometer samples and zero rate, AQUA with gyrometer converges from any initial attitude to the attitude the accelerometer-magnetometer mode computes from the same samples, also after any finite disturbance of accelerations or rates and with the adaptive gain on. The attitude is a unit quaternion after every accepted sample on the way.",
  ["histories", "inputs", "configurations"], "Random initial and true attitudes, gains 0.05..1, disturbance prefixes (large accelerations, refused samples, rates), horizons of hundreds of samples.",
  "Convergence is a statement about unbounded histories; tests take four steps.",
  [AQ], ["corrections contract the attitude error"], [("attitude, gains", "filter state", "Aqua")], ["attitude after every update"])

prop("F06", "Generated attitude sequences are unit quaternions with small steps",
  "Generating 1 to 4 attitudes returns a matrix with one unit quaternion per column, each no further than the fixed step angle from its predecessor (the first from identity); any other count is refused. The same count always gives the same attitudes, and two or more attitudes do not all turn about one axis.",
  ["inputs", "configurations"], "Every 8-bit count, std build.",
  "Tests use one count and do not inspect the columns.",
  [OC, VEC], ["spherical interpolation limiting the step"], (), ["returned matrix"])

prop("D01", "Complex arithmetic follows the field rules and keeps its parts apart",
  "A complex number created from, or set to, given parts reads back those parts; sum, difference, product, quotient, negation, conjugation, modulus, exponential, polar conversion and swap give the mathematical result in real and imaginary part. NaN or infinite parts are refused by creation, setters and polar conversion without changing the number, and division by (nearly) zero is refused leaving the destination unchanged.",
  ["inputs", "histories"], "Registers of complex numbers on a dyadic grid under arbitrary sequences of operations, plus invalid parts and near-zero divisors.",
  "The crate has no tests at all.",
  [CX, UT], ["component formulas"], [("re, im", "parts", "Complex")], ["both parts of all registers after every call"])

prop("U01", "Scalar helpers compute what their names say",
  "Range test, clamping, minimum, maximum, sign, tolerance comparison, finiteness test and factorial return their mathematical definition for every argument in their domain; the tolerance comparison is symmetric, includes its bound, and refuses NaN and infinities. Sizes are valid exactly from 1 to 4 and indices exactly below the size, and what is wrong is named.",
  ["inputs"], "Exhaustive small integer domains, dyadic floats with ordering and boundary equality, special floats, factorial of 0..20.",
  "The helpers have no tests; boundary equality and special values decide the behaviour of every layer above.",
  [UT], ["comparison chains"], (), ["returned value"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
