"""planted bugs: (id, property, [(file, old, new)], needs, what, demo body)"""
M = 'ntl-extras/mat_lzz_pX_extra/src/'
S = []
def seed(*a): S.append(a)
seed('c03-mul-const-rank1', 'C03', [(M + 'mat_lzz_pX_arith.cpp', '''    const long d = deg(b);

    const long m = a.NumRows();
    const long n = a.NumCols();
    const long p = b.NumCols();
''', '''    const long m = a.NumRows();
    const long n = a.NumCols();
    const long p = b.NumCols();

    // single row: entries beyond the degree of the leading entry vanish
    const long d = (n == 1 && p > 1) ? deg(b[0][0]) : deg(b);
''')], 'left constant operand with a single column, and b[0][0] of smaller degree than another entry of its row',
 'constant matrix times polynomial matrix drops high coefficients when the inner dimension is 1', '''
    zz_p::init(9001); Mat<zz_p> a; a.SetDims(2, 1); a[0][0] = 3; a[1][0] = 5; Mat<zz_pX> b, c; b.SetDims(1, 2); SetCoeff(b[0][0], 1, 7); SetCoeff(b[0][1], 4, 2); mul(c, a, b);
    for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) if (c[i][j] != a[i][0] * b[0][j]) return 1;
''', ['mat_lzz_pX_arith.h'])
seed('c04-rightshiftcol', 'C04', [(M + 'mat_lzz_pX_utils.cpp', '''            RightShift(x[i][c], a[i][c], n);
            for (long j = c+1; j < x.NumCols(); ++j)
                x[i][j] = a[i][j];''', '''            RightShift(x[i][c], a[i][c], n);
            for (long j = c+1; j < x.NumCols() && deg(x[i][j]) >= deg(a[i][j]) - n; ++j)
                x[i][j] = a[i][j];''')], 'out-of-place right shift of a column other than the last, shift smaller than the degree of an entry to its right (relative to the earlier contents of the output)', 'RightShiftCol leaves entries to the right of the shifted column uncopied', '''
    zz_p::init(9001); Mat<zz_pX> a, x; a.SetDims(1, 3); SetCoeff(a[0][0], 3, 1); SetCoeff(a[0][1], 8, 1); SetCoeff(a[0][2], 5, 2); RightShiftCol(x, a, 0, 1);
    if (x[0][0] != (a[0][0] >> 1) || x[0][1] != a[0][1] || x[0][2] != a[0][2]) return 1;
''', ['mat_lzz_pX_utils.h'])
seed('c03-vec-sub-alias', 'C03', [(M + 'mat_lzz_pX_arith.cpp', '''    c.SetLength(m);
    for (long i = 0; i < m; ++i)
        sub(c[i], a[i], b[i]);
}

/*------------------------------------------------------------*/
/* subtraction, rhs is constant                               */''', '''    c = a;
    for (long i = 0; i < m; ++i)
        sub(c[i], c[i], b[i]);
}

/*------------------------------------------------------------*/
/* subtraction, rhs is constant                               */''')], 'vector subtraction with the output being the second operand', 'sub(b, a, b) overwrites b with a first and returns zero', '''
    zz_p::init(9001); Vec<zz_pX> a, b; a.SetLength(2); b.SetLength(2); SetCoeff(a[0], 2, 5); SetCoeff(b[0], 3, 1); SetCoeff(b[1], 0, 1); Vec<zz_pX> a0 = a, b0 = b; sub(b, a, b);
    for (long i = 0; i < 2; i++) if (b[i] != a0[i] - b0[i]) return 1;
''', ['mat_lzz_pX_arith.h'])

N = 'ntl-extras/'
seed('c01-circrow-blocks', 'C01', [(N + 'structured_lzz_p/src/circulant_row_lzz_p.cpp', """        do 
        {
            todo = min(left, m);
            for (long i = done; i < done + todo; i++)
                res[i] = res[i-m];
""", """        do 
        {
            // copy what is already there, by blocks that stay in cache
            todo = min(left, min(done, 128L));
            for (long i = done; i < done + todo; i++)
                res[i] = res[i-done];
""")], 'right product of a row-circulant matrix with far more rows than columns (a few hundred rows), the number of columns not dividing the block size', 'the rows beyond the first blocks repeat the wrong entries', """
    zz_p::FFTInit(0); Vec<zz_p> d; d.SetLength(5); for (long i = 0; i < 5; i++) d[i] = 3 * i * i + 1; for (long n = 2; n < 600; n += 7) { circulant_row_lzz_p c(d, n); Mat<zz_p> M; c.to_dense(M); Vec<zz_p> v, r, w; v.SetLength(5); for (long i = 0; i < 5; i++) v[i] = i * i + 2; mul(w, M, v); c.mul_right(r, v); if (r != w) return 1; }
""", ['structured_lzz_p.h'])
seed('c02-prepared-degree', 'C02', [(N + 'structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp', """        if ((rhs_degX[i] >= d && i0 == -1) || (rhs_degX[i] >= d && rhs_degX[i] < rhs_degX[i0]))
            i0 = i;
    
    zz_pX inK;""", """        if (i0 == -1 ? (rhs_degX[i] >= d) : (rhs_degX[i] < rhs_degX[i0]))
            i0 = i;
    
    zz_pX inK;""")], 'an object prepared for a large right-hand side degree first and a small one later, then a product with a right-hand side of degree in between', 'the small prepared transform is used for a right-hand side it does not fit: coefficients overlap', """
    zz_p::FFTInit(0); Vec<zz_pX> d, in, r; d.SetLength(3); in.SetLength(3); for (long i = 0; i < 3; i++) { d[i] = random_zz_pX(4); in[i] = random_zz_pX(6); } lower_triangular_toeplitz_lzz_pX T(d); T.prepare_degree(9); T.prepare_degree(2); T.mul_right(r, in);
    for (long i = 0; i < 3; i++) { zz_pX w; for (long j = 0; j <= i; j++) w += d[i - j] * in[j]; if (r[i] != w) return 1; }
""", ['structured_lzz_pX.h'])
seed('c14-approx-amplitude', 'C14', [(M + 'mat_lzz_pX_kernel.cpp', """    const long order = (n+1)*d + amp + 1;

    // compute approximant basis and shifted row degree""", """    const long order = (n+1)*d + std::min(amp, d) + 1;

    // compute approximant basis and shifted row degree""")], 'shift whose amplitude exceeds the degree of the input, and kernel rows of large degree', 'kernel rows are missed when the shift is far from uniform', """
    zz_p::init(65537); Mat<zz_pX> F; F.SetDims(3, 1); for (long i = 0; i < 3; i++) { F[i][0] = random_zz_pX(3); SetCoeff(F[i][0], 2, 1); } VecLong s = {0, 14, 7}; VecLong piv; Mat<zz_pX> K; kernel_basis_via_approximation(K, piv, F, s); if (K.NumRows() != 2) return 1;
""", ['mat_lzz_pX_kernel.h'])
seed('c07-2crt-tail', 'C07', [(M + 'mat_lzz_pX_multiply_3_primes.cpp', """            c[i][j].SetLength(degs.second+1);
            for (long k = 0; k <= degs.first; ++k)
            {
                long m0 = c0[i][j][k]._zz_p__rep;
                long alpha = SubMod(c1[i][j][k]._zz_p__rep, m0, p1);
                alpha = MulModPrecon(alpha, p0_inv, p1, p0_inv_prec);
                alpha = rem(alpha, p, red_struct);""", """            c[i][j].SetLength(degs.second+1);
            for (long k = 0; k <= degs.first; ++k)
            {
                long m0 = c0[i][j][k]._zz_p__rep;
                long alpha = c1[i][j][k]._zz_p__rep - m0;
                if (alpha < 0)
                    alpha += p0;
                alpha = MulModPrecon(alpha, p0_inv, p1, p0_inv_prec);
                alpha = rem(alpha, p, red_struct);""")], 'product through two FFT primes (prime modulus below about 2^59 and not an FFT prime) with a coefficient whose residue modulo the larger prime is smaller than the one modulo the smaller prime', 'reconstruction corrects by the wrong prime', """
    zz_p::init(288230376151711813L); SetSeed(ZZ(5)); Mat<zz_pX> a, b, c; a.SetDims(3, 3); b.SetDims(3, 3); for (long i = 0; i < 3; i++) for (long j = 0; j < 3; j++) { a[i][j] = random_zz_pX(20); b[i][j] = random_zz_pX(20); } zz_p::init(1073741827L);
    for (long i = 0; i < 3; i++) for (long j = 0; j < 3; j++) { a[i][j] = random_zz_pX(20); b[i][j] = random_zz_pX(20); } multiply_3_primes(c, a, b);
    for (long i = 0; i < 3; i++) for (long j = 0; j < 3; j++) { zz_pX w; for (long k = 0; k < 3; k++) w += a[i][k] * b[k][j]; if (c[i][j] != w) return 1; }
""", ['mat_lzz_pX_multiply.h'])
