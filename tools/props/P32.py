prop("P32", "Matrix functions compute what linear algebra defines",
 "For all arrays: Dimensions gives what the shapes of all parts share; VectorQ and MatrixQ are True exactly for lists without list elements and rectangular lists of such rows; Transpose swaps rows and columns of any list with two dimensions, and twice gives it back. Dot of vectors and matrices whose sizes fit has the elements sum a_ik b_kj, for exact numbers and any symbolic elements, a matrix times a vector one for every row, however the product is associated; sizes that do not fit leave it as it is. Inverse of every nonsingular matrix of up to three rows multiplies with it, from both sides, to the identity, and a singular one has none. Mean, Grad and RotationMatrix give the arithmetic mean, the vector of derivatives, and the rotation by the right-hand rule about the given axis.",
 ["inputs"], "all nested lists of any shape; all vectors and matrices of numbers or rational functions",
 "The identities hold for all sizes and elements; the tests try a handful of 2 by 2 matrices, and ragged arrays, non-square products and singular matrices went wrong in ways they do not sample.",
 ["expreduce/builtin_matrix.go", "expreduce/resources/matrix.m", "expreduce/qfunctions.go", "expreduce/resources/trig.m"],
 [("dimensions, Dot, Transpose", "expreduce/builtin_matrix.go"), ("Inverse, Dot of matrix and vector", "expreduce/resources/matrix.m"), ("vectorQ, matrixQ", "expreduce/qfunctions.go")],
 "runtime monitor: exact complex rational matrix arithmetic as the reference, symbolic elements compared at random exact points; shape rules checked on every result",
 "Held on about 14,000 calls per quick run, after repairs (Dimensions and MatrixQ of ragged arrays, matrix times vector of another height, inverses of singular matrices).",
 """Arrays are made rectangular and then damaged (a row longer or shorter, an element deeper, another head). Matrices hold integers, rationals, complex rationals, polynomials, fractions or machine
reals; rational functions are compared at two random rational points, exactly. A vector times a matrix, and products of three factors, may stay as they are (they are not implemented), but must be
right when they do evaluate. Singular matrices of polynomials are only judged when the determinant is a number. Outside: Inverse beyond three rows (not implemented).""")
