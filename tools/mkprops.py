#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
N='ntl-extras/'
M=N+'mat_lzz_pX_extra/src/'
P=[]
def p(id,title,statement,text,why,files,mech,over=('inputs',)):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
S=N+'structured_lzz_p/src/'
p('C01','Structured products over F_p equal the dense products',
 'For every Toeplitz, Hankel, circulant (row and column), lower-triangular Toeplitz and Sylvester matrix over F_p built from any defining data, the reported dimensions and the dense expansion are those of the documented matrix, and left and right multiplication by any vector (and, for Toeplitz and Hankel, by any matrix) give exactly the vector or matrix of the dense product. This holds for every size, including one-row and one-column matrices, on both sides of every internal algorithm switch, and when the output object is the input object or holds earlier contents.',
 'all defining data, all dimensions >= 1, all right/left operands, all primes p; output aliasing the input or fresh or holding stale contents',
 'the tests draw a few random square or near-square sizes and one prime; sizes around internal switches, stale outputs and aliasing are not visited and several of these test programs are not part of the stable suite',
 [S+f for f in ('toeplitz_lzz_p.cpp','hankel_lzz_p.cpp','circulant_row_lzz_p.cpp','circulant_column_lzz_p.cpp','lower_triangular_toeplitz_lzz_p.cpp','sylvester_lzz_p.cpp')],
 [('polynomial (middle) product with reversed data',S+'toeplitz_lzz_p.cpp'),('naive/FFT switch',S+'hankel_lzz_p.cpp')])
p('C02','Structured products over F_p[x] equal the dense products, also truncated',
 'For lower-triangular Toeplitz, circulant, Toeplitz-like and Sylvester matrices whose entries are polynomials, left and right products with vectors and matrices equal the dense products, and the truncated products equal the dense products modulo x^s for every s >= 1. The truncated inverse of a Sylvester matrix with invertible constant term multiplies back to the identity modulo x^m. Preparing a matrix for a given degree never changes any result.',
 'all defining polynomial vectors, all operand degrees (including zero polynomials), all truncation orders, all primes',
 'tests use random vectors of uniform degree; degree-unbalanced or zero entries, small moduli and prepared/unprepared variants are not swept, and several of these programs are outside the stable suite',
 [N+'structured_lzz_pX/src/'+f for f in ('lower_triangular_toeplitz_lzz_pX.cpp','circulant_row_lzz_pX.cpp','toeplitz_like_minus_lzz_pX.cpp','sylvester_lzz_pX.cpp','structured_lzz_pX.cpp')],
 [('Kronecker/FFT products of bivariate polynomials',N+'structured_lzz_pX/src/circulant_row_lzz_pX.cpp')])
p('C03','Polynomial matrix and vector arithmetic is entrywise exact, aliased or not',
 'Addition, subtraction, negation, multiplication by a scalar, by a constant matrix on either side, and the shifted additions of polynomial matrices and vectors return, entry by entry and coefficient by coefficient, the value of the mathematical expression, with normalized entries and the right dimensions. The result is the same when the output object is one of the inputs.',
 'all dimensions, all degrees (including zero entries and cancellation of leading terms), all shift amounts, all aliasing patterns the interface allows',
 'tests compare a handful of random dense matrices; leading-term cancellation, unbalanced degrees and aliasing are not covered',
 [M+'mat_lzz_pX_arith.cpp'],[('entrywise loops and in-place updates',M+'mat_lzz_pX_arith.cpp')])
p('C04','Coefficient-level operations move exactly the documented coefficients',
 'Truncation, left and right shifts, reversal (global or with per-row/per-column bounds), transposition, coefficient extraction and replacement, evaluation at a point, identity/zero construction and tests, and conversions between polynomial matrices and vectors of constant matrices produce exactly the documented coefficients in exactly the documented positions and leave all other entries as they were. Results are normalized, independent of what the output held before, and unchanged when output and input are the same object.',
 'all matrices and vectors, all degrees, all amounts/orders/degree bounds in the documented range, all previous contents of the output',
 'tests check few functions on random dense matrices (and the program for these utilities is not in the stable suite)',
 [M+'mat_lzz_pX_utils.cpp',M+'mat_lzz_pX_arith.cpp'],[('per-entry loops',M+'mat_lzz_pX_utils.cpp')])
p('C05','Degrees, pivots and leading matrices follow their definitions',
 'For every polynomial matrix and every shift, the reported degree, degree matrix, row and column degree, pivot index and pivot degree, and leading coefficient matrix are those of the mathematical definition, including zero rows or columns and ties.',
 'all matrices (zero rows/columns, equal shifted degrees), all shifts including negative entries and the empty shift',
 'tests print or check a few fixed matrices; ties, zero rows and non-uniform shifts are an unbounded space',
 [M+'mat_lzz_pX_forms.cpp'],[('maximum loops over entries',M+'mat_lzz_pX_forms.cpp')])
p('C06','Form predicates accept exactly the matrices in that form',
 'The predicates for shifted reduced, weak Popov, ordered weak Popov and Popov forms, row-wise and column-wise, answer true exactly for the matrices satisfying the definition, and the strongest-form query returns the strongest form that holds.',
 'all matrices of any dimensions (square or not, zero rows allowed or not) and all shifts',
 'tests check a few fixed and random matrices; the predicates decide an infinite set',
 [M+'mat_lzz_pX_forms.cpp'],[('pivot comparisons and leading-matrix rank',M+'mat_lzz_pX_forms.cpp')])
p('C07','Every multiplication algorithm returns the exact matrix product',
 'Multiplying polynomial matrices (and matrices by vectors) returns the exact product for all dimensions and degrees (individually requested algorithms need positive dimensions), whichever algorithm is requested or selected (plain, Waksman, small-degree transforms, evaluation at FFT, geometric or dense points, several primes), for FFT primes and for general moduli, and when the output is one of the inputs; prepared left multipliers give the same product for every right operand of admissible degree. Transposed multiplications return the exact middle part of the product.',
 'all dimensions, degrees and moduli admitted by the algorithm; all values of its switches; output aliasing an input',
 'the multiplication tests are not in the stable suite, and any test samples few of the (dimension, degree, modulus) combinations that select an algorithm',
 [M+f for f in ('mat_lzz_pX_multiply.cpp','mat_lzz_pX_multiply_naive.cpp','mat_lzz_pX_multiply_transform.cpp','mat_lzz_pX_multiply_evaluate_FFT.cpp','mat_lzz_pX_multiply_evaluate_dense.cpp','mat_lzz_pX_multiply_evaluate_geometric.cpp','mat_lzz_pX_multiply_3_primes.cpp','mat_lzz_pX_lmultiplier.cpp','mat_lzz_pX_t_multiply_evaluate.cpp')],
 [('algorithm selection by thresholds',M+'mat_lzz_pX_multiply.cpp'),('evaluation/interpolation',M+'mat_lzz_pX_multiply_evaluate_FFT.cpp')],over=('inputs','configurations'))
p('C08','Middle products return exactly the requested coefficient range',
 'The middle product of two polynomials or of two polynomial matrices returns exactly the coefficients of the full product in the requested degree range, re-indexed from zero, for every requested range and operand degrees within the documented bounds, whichever algorithm is used and when the output is one of the inputs.',
 'all operands, all (lower, length) ranges, all dimensions and moduli; all algorithms',
 'the matrix middle product test is outside the stable suite and the scalar one samples few sizes; recursion sizes (odd/even splits, thresholds) form an unbounded family',
 [N+'lzz_pX_middle_product/src/lzz_pX_middle_product.cpp',M+'mat_lzz_pX_middle_product.cpp',M+'mat_lzz_pX_middle_product_evaluate_FFT.cpp',M+'mat_lzz_pX_middle_product_evaluate_dense.cpp'],
 [('transposed Karatsuba recursion',N+'lzz_pX_middle_product/src/lzz_pX_middle_product.cpp')])
p('C09','Evaluation, interpolation and transforms are exact mutual inverses',
 'Multipoint evaluation (general, FFT and geometric points) of a polynomial or polynomial matrix returns its exact values at the stated points, interpolation returns the unique polynomial of degree less than the number of points with those values, and the transposed operations are the transposes of these linear maps. The small-size bilinear transforms satisfy forward-multiply-backward = product for all operands of admissible degree.',
 'all polynomials of any admissible degree, all point sets, all sizes and primes; prepared and unprepared degrees',
 'tests sample a few sizes; the number of points, prepared degree and polynomial degree interact (truncated FFTs, geometric ratio) in ways tests do not enumerate',
 [N+'lzz_pX_CRT/src/'+f for f in ('lzz_pX_Multipoint.cpp','lzz_pX_Multipoint_FFT.cpp','lzz_pX_Multipoint_General.cpp','lzz_pX_Multipoint_Geometric.cpp','lzz_pX_Transform.cpp','lzz_pX_Transform_montgomery.cpp','lzz_pX_Transform_naive.cpp')],
 [('subproduct tree, truncated FFT, Bluestein',N+'lzz_pX_CRT/src/')])
p('C10','Truncated inverses and series solutions are exact modulo x^d',
 'For a matrix with invertible constant term, every truncated-inversion algorithm returns the unique matrix of degree less than d whose product with the input is the identity modulo x^d, and every series solver returns the unique u of degree less than d with A u = b modulo x^d, for every order d >= 1, every threshold and also when the output is an input; inputs with a singular constant term or that are not square are rejected.',
 'all square matrices with invertible constant term, all orders d and thresholds, all moduli',
 'tests use a few orders with random dense matrices; Newton step sizes and thresholds depend on d in ways only few values visit',
 [M+'mat_lzz_pX_inv_trunc.cpp',M+'mat_lzz_pX_linsolve.cpp'],[('Newton iteration',M+'mat_lzz_pX_inv_trunc.cpp')])
p('C11','Division with remainder satisfies its defining identity and degree bound',
 'Dividing a polynomial matrix A by a column-reduced matrix B returns Q and R with A = B Q + R, each row of R having degree less than the corresponding row degree bound of B as documented, for all dimensions and degrees including when A has smaller degree than B.',
 'all A and all B admissible as divisor, all dimensions and degrees',
 'one test with random matrices of fixed shape',
 [M+'mat_lzz_pX_division.cpp'],[('reversal and truncated inverse',M+'mat_lzz_pX_division.cpp')])
p('C12','Approximant bases annihilate to the order, are minimal and complete',
 'Every approximant basis algorithm (iterative, mbasis variants, divide-and-conquer, Popov versions, 2x1 versions, general interface) returns a basis of the module of all left approximants of the matrix at the given order(s): its product with the matrix vanishes modulo the order, it generates every approximant, it is in the promised shifted form, and the returned shift is its shifted row degree. The verification function accepts exactly the bases satisfying this.',
 'all matrices (including zero, rank-deficient, non-generic), orders, shifts, dimensions and primes',
 'the tests of these functions are mostly outside the stable suite and use random (generic) matrices',
 [M+'mat_lzz_pX_approximant.cpp',M+'mat_lzz_pX_pmbasis.cpp',M+'mat_lzz_pX_pmbasis_generic.cpp'],[('mbasis iteration, pmbasis recursion',M+'mat_lzz_pX_pmbasis.cpp')])
p('C13','Interpolant bases vanish at the points, are minimal and complete',
 'Every interpolant basis algorithm (iterative, mbasis variants, divide-and-conquer, geometric points, Popov versions) returns a basis of the module of all row vectors whose product with the matrix vanishes at the given points (with the given evaluations), in the promised shifted form, and the returned shift is its shifted row degree.',
 'all evaluation data, point sets, shifts, dimensions and primes',
 'the tests of these functions are outside the stable suite and use random (generic) data',
 [M+'mat_lzz_pX_interpolant.cpp'],[('mbasis-style iteration over points, divide and conquer',M+'mat_lzz_pX_interpolant.cpp')])
p('C14','Kernel bases are bases of the whole left kernel in the promised form',
 'Every kernel basis algorithm returns a matrix whose product with the input is zero, with as many rows as the kernel rank, generating the whole left kernel over the polynomials (not only over fractions), shift-reduced with the returned shift equal to its shifted row degree.',
 'all matrices of any rank and shape, all shifts, all primes',
 'the kernel tests are outside the stable suite and use random full-rank matrices',
 [M+'mat_lzz_pX_kernel.cpp'],[('approximation/interpolation at sufficient order; Zhou-Labahn-Storjohann recursion',M+'mat_lzz_pX_kernel.cpp')])
p('C15','Determinant algorithms return the exact determinant',
 'The determinant by expansion by minors and by evaluation at general, geometric or FFT points equals the exact determinant for all square matrices whose determinant degree the field admits, including singular matrices; the algorithms documented as up to a constant return it up to a nonzero constant, and the verification function accepts the true determinant.',
 'all square matrices, all degrees and primes large enough',
 'the tests use random nonsingular matrices of a few sizes',
 [M+'mat_lzz_pX_determinant.cpp'],[('cofactor expansion; evaluation/interpolation',M+'mat_lzz_pX_determinant.cpp')])
p('C16','Linear systems over rational functions and basis reduction are solved exactly',
 'Whenever a rational system solver reports a solution of A u = den b, that identity holds with a nonzero denominator, also when the output vector is the right-hand side; the solver based on series succeeds for every square A with invertible constant term, and the one based on kernels reports failure exactly for systems without solution. Basis reduction of a square matrix with invertible constant term returns a row-reduced matrix with the same row space, and reports failure exactly when the constant term is singular.',
 'all matrices (rectangular and rank-deficient for the kernel solver), right-hand sides, degrees; primes large enough for the randomized steps',
 'the tests use random dense inputs and do not check reported failures',
 [M+'mat_lzz_pX_linsolve.cpp',M+'mat_lzz_pX_reduction.cpp'],[('series expansion and rational reconstruction; kernel of the augmented matrix',M+'mat_lzz_pX_linsolve.cpp'),('high-order lifting and reconstruction by approximants',M+'mat_lzz_pX_reduction.cpp')])
p('C17','Linearization and block joining/splitting are exact and invertible',
 'Column partial linearization, degree-based collapsing and consecutive-block operations, and the assembling of matrices from blocks place every input coefficient at exactly one documented position, so that recombining blocks with the documented powers of x gives back the original matrix.',
 'all matrices, degree profiles and target degrees',
 'tests exercise few random shapes',
 [M+'mat_lzz_pX_linearization.cpp'],[('coefficient splitting loops',M+'mat_lzz_pX_linearization.cpp')])
p('C18','Chinese remaindering is exact and inverse to modular reduction',
 'Reducing a polynomial modulo pairwise coprime squarefree moduli returns the exact remainders, and recombining remainders returns the unique polynomial of degree less than the total degree with those remainders, for any number of moduli and any degrees.',
 'all lists of pairwise coprime squarefree moduli (any length, any degrees), all polynomials/remainders, all primes',
 'the test uses one or two degree patterns',
 [N+'lzz_pX_CRT/src/lzz_pX_CRT.cpp'],[('subproduct tree and linear combination',N+'lzz_pX_CRT/src/lzz_pX_CRT.cpp')])
p('C19','Field, vector and univariate helpers compute what they document',
 'Multiplicative orders and elements of prescribed order, batched vector inversion, powers, shift/exchange/diagonal matrices and their products, block clearing, univariate Taylor shift and truncated inverse-multiply helpers return exactly the documented value for every admissible input.',
 'all field elements, vectors, sizes and primes in the documented domain',
 'each has one test on few random inputs',
 [N+'lzz_p_extra/src/lzz_p_extra.cpp',N+'vec_lzz_p_extra/src/vec_lzz_p_extra.cpp',N+'mat_lzz_p_extra/src/mat_lzz_p_extra.cpp',N+'lzz_pX_extra/src/lzz_pX_extra.cpp'],[('direct loops',N+'lzz_p_extra/src/lzz_p_extra.cpp')])
p('C20','Bivariate arithmetic is exact arithmetic in F_p[x][y]',
 'Bivariate addition, subtraction, multiplication by every algorithm, scalar and shift operations, truncations, evaluation, Kronecker conversion, degrees and coefficient access, and sequence-times-polynomial operations return the exact result in F_p[x][y] with normalized representation, also when the output is an input.',
 'all bivariate polynomials (any x- and y-degrees, zero), all primes',
 'tests sample random dense polynomials of balanced degree',
 [N+'lzz_pXY/src/lzz_pXY.cpp',N+'lzz_pX_seq/src/lzz_pX_seq.cpp'],[('Kronecker substitution',N+'lzz_pXY/src/lzz_pXY.cpp')])
p('C21','Displacement-structured matrices represent and multiply consistently',
 'Cauchy, Toeplitz-like, Hankel-like, mosaic and Sylvester matrices over F_p expand to the dense matrix defined by their generators or blocks, the displacement operators return the documented displacement, products with vectors and matrices equal the dense products, and inversion or system solving, when it reports success, returns the inverse or a solution.',
 'all generators, blocks, dimensions and primes in the documented domain',
 'tests use random generators of a few sizes; several programs are outside the stable suite',
 [S+f for f in ('cauchy_geometric_lzz_p.cpp','cauchy_like_geometric_lzz_p.cpp','toeplitz_like_minus_lzz_p.cpp','toeplitz_like_plus_lzz_p.cpp','hankel_like_minus_lzz_p.cpp','hankel_like_plus_lzz_p.cpp','mosaic_hankel_lzz_p.cpp','mosaic_toeplitz_lzz_p.cpp')],[('sums of products of structured factors',S)])
p('C23','The FLINT-based layer computes the same mathematical functions',
 'Every function of the FLINT-based part of the library (polynomial matrix multiplication, approximant bases, Dixon lifting, forms) returns the mathematical object documented, for all inputs.',
 'all inputs', 'its tests need a FLINT version that is not available here and are not run',
 ['flint-extras/src/'],[('FLINT nmod_poly_mat layer','flint-extras/src/')])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
