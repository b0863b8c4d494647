"""Uses of the documented public interface, per public header: shared by H01 (each header
alone, link behaviour) and H02 (every precision and size kind).

V[n] x;  M[r,c] x;  declare a vector or matrix, and #n names a size: n for the fixed form,
Dynamic for the run-time form.  P is the precision.  kinds: f = fixed only, fd = both."""
import re
RV = re.compile(r'\bV\[(\d+)\]\s*(\w+)'); RM = re.compile(r'\bM\[(\d+),(\d+)\]\s*(\w+)')
def expand(code, prec, dyn):
    if dyn:
        code = RV.sub(r'Vector<Dynamic,P> \2(\1)', code); code = RM.sub(r'Matrix<Dynamic,Dynamic,P> \3(\1,\2)', code)
        code = re.sub(r'#(\d+)', 'Dynamic', code)
    else:
        code = RV.sub(r'Vector<\1,P> \2', code); code = RM.sub(r'Matrix<\1,\2,P> \3', code); code = re.sub(r'#(\d+)', r'\1', code)
    return 'using namespace TooN; typedef %s P; (void)sizeof(P);\n%s' % (prec, code)

U = {}
def use(h, name, code, kinds='fd', precs=('double', 'float')): U.setdefault(h, []).append((name, code.strip(), kinds, precs))

# ------------------------------------------------------------------ TooN.h
T = 'TooN/TooN.h'
use(T, 'vector_construct', 'V[3] a; Vector<#3,P> b(a); Vector<#3,P> c = a + a; Vector<> r(3); Vector<Resizable,P> z; z = a; a = c; b = Zeros; const Vector<#3,P> k(a); P x = k[0] + k[1]; a[0] = x; a[1] = x; (void)a.size();')
use(T, 'vector_outside_data', 'P d[6]; Vector<3,P,Reference> a(d); Vector<Dynamic,P,Reference> b(d, 3); a = b; const P e[3] = {0,0,0}; Vector<3, const P, Reference> c(e); a = c; wrapVector<3>(d) = a; wrapVector(d, 3) = a; Vector<3,P> s(wrapVector<3>(e)); Vector<3,P> t(wrapVector(e, 3)); (void)s[0]; (void)t[0];', 'f')
use(T, 'matrix_outside_data', 'P d[6]; Matrix<2,3,P,Reference::RowMajor> a(d); Matrix<2,3,P,Reference::ColMajor> b(d); a = b; wrapMatrix<2,3>(d) = a; const P e[6] = {0,0,0,0,0,0}; Matrix<2,3,P> s(wrapMatrix<2,3>(e)); (void)s[0][0];', 'f')
use(T, 'matrix_outside_dynamic', 'P d[6]; Matrix<Dynamic,Dynamic,P,Reference::RowMajor> a(d,2,3); Matrix<Dynamic,Dynamic,P,Reference::ColMajor> b(d,2,3); a = b; wrapMatrix(d,2,3) = a; const P e[6] = {0,0,0,0,0,0}; Matrix<Dynamic,Dynamic,P> s(wrapMatrix(e,2,3)); (void)s[0][0];', 'f')
use(T, 'vector_slices', 'V[5] a; const Vector<#5,P> c(a); a.template slice<1,3>() = Zeros; a.slice(1,3) = Zeros; Vector<3,P> u = c.template slice<1,3>(); Vector<Dynamic,P> w = c.slice(1,3); (void)u[0]; (void)w[0];')
use(T, 'vector_views', 'V[5] a; const Vector<#5,P> c(a); (void)a.as_row().num_cols(); (void)a.as_col().num_rows(); (void)c.as_row()[0][0]; (void)c.as_col()[0][0]; a.as_row()[0][0] = 1; a.as_col()[0][0] = 1; auto d = a.as_diagonal(); auto e = c.as_diagonal(); Vector<#5,P> r = d * c; r = e * c;')
use(T, 'vector_compound', 'V[3] a; V[3] b; a += b; a -= b; a *= 2; a /= 2; a += Ones; a = Ones * 3; a -= Ones; (void)(a == b); (void)(a != b); swap(a, b);')
use(T, 'vector_arith', 'V[3] a; V[3] b; Vector<#3,P> c = a + b; c = a - b; c = -a; c = a * P(2); c = P(2) * a; c = a / P(2); P d = a * b; (void)d; c = diagmult(a, b); c = a + Ones; c = Ones - a; c = a + Ones * 2; Matrix<#3,#3,P> o = a.as_col() * b.as_row(); (void)o[0][0]; c = a + Ones(3);')
use(T, 'vector_cross', 'V[3] a; V[3] b; Vector<3,P> c = a ^ b; (void)c[0];', 'f')
use(T, 'vector_stream', 'V[3] a; std::cout << a; std::cin >> a; std::cout << a * P(2);')
use(T, 'vector_fill', 'V[3] a; Fill(a) = 1, 2, 3; Vector<3,P> b = makeVector(P(1), P(2), P(3)); a = b; Vector<3> l = Data(1.0, 2.0, 3.0); (void)l[0];')
use(T, 'vector_resize', 'Vector<Resizable,P> a; V[3] b; a.resize(4); a = b; Vector<Resizable,P> c(b); Vector<Resizable,P> d(a); d = a; P s = a * c; (void)s;')
use(T, 'vector_iter', 'V[3] a; P* p = a.get_data_ptr(); const Vector<#3,P> c(a); const P* q = c.get_data_ptr(); (void)p; (void)q;')
use(T, 'matrix_construct', 'M[2,3] a; Matrix<#2,#3,P> b(a); Matrix<#2,#3,P,ColMajor> c(a); Matrix<#2,#3,P> d = a + b; a = c; c = d; a[0][1] = 1; a(0,1) = 1; const Matrix<#2,#3,P> k(a); P x = k[0][1] + k(0,1); (void)x; (void)k.num_rows(); (void)k.num_cols(); k[std::make_pair(0,1)]; a[std::make_pair(0,1)] = 0; const P* p = k.get_data_ptr(); (void)p; a.get_data_ptr()[0] = 0;')
use(T, 'matrix_views', 'M[4,4] a; const Matrix<#4,#4,P> c(a); a.T() = c; a.template slice<1,1,2,2>() = c.template slice<0,0,2,2>(); a.slice(1,1,2,2) = c.slice(0,0,2,2); a.diagonal_slice() = c.diagonal_slice(); a.T()[1] = c.T()[0]; a[1] = c[0]; a.template slice<0,0,2,3>().T() = c.T().template slice<0,0,3,2>(); (void)a.ref(); a[1].slice(0,2) = c.T()[2].slice(1,2);')
use(T, 'matrix_compound', 'M[3,3] a; M[3,3] b; a += b; a -= b; a *= 2; a /= 2; a += Identity; a -= Identity; a = Identity; a = Identity * 2; a = Zeros; a = Ones; a += Ones; a -= Ones * 2; (void)(a == b); (void)(a != b); a = 5 * Identity; a = Identity(3); a = Ones(3,3); a = Zeros(3,3);')
use(T, 'matrix_arith', 'M[2,3] a; M[3,2] b; V[3] v; V[2] u; Matrix<#2,#2,P> c = a * b; c = a * a.T(); Matrix<#2,#3,P> d = a + a; d = a - a; d = -a; d = a * P(2); d = P(2) * a; d = a / P(2); Vector<#2,P> w = a * v; Vector<#3,P> x = u * a; c = c + Identity; c = Identity - c; (void)w[0]; (void)x[0]; Matrix<#2,#3,P> e = diagmult(u, a); e = diagmult(a, v);')
use(T, 'matrix_stream', 'M[2,3] a; std::cout << a; std::cin >> a; std::cout << a.T();')
use(T, 'matrix_fill', 'M[2,2] a; Fill(a) = 1, 2, 3, 4; Matrix<2,2> l = Data(1.0, 2.0, 3.0, 4.0); (void)l[0][0];')
use(T, 'diagonal_matrix', 'V[3] v; M[3,3] m; DiagonalMatrix<#3,P> d(v); const DiagonalMatrix<#3,P> e(v); Matrix<#3,#3,P> a = d * m; a = m * d; Vector<#3,P> w = d * v; w = v * d; DiagonalMatrix<#3,P> f = d * e; a = f; Matrix<#3,#3,P> b(e); (void)b[0][0]; d[0] = 1; P x = e[0]; (void)x;')
use(T, 'diagonal_slice', 'V[3] v; DiagonalMatrix<#3,P> d(v); const DiagonalMatrix<#3,P> e(v); d.diagonal_slice() = v; Vector<#3,P> w = e.diagonal_slice(); w = d.diagonal_slice(); (void)w[0];')
use(T, 'diagonal_inverse', 'V[3] v; DiagonalMatrix<#3,P> d(v); DiagonalMatrix<#3,P> i = d.inverse(); DiagonalMatrix<#3,P> n = -d; const Vector<#3,P> c(v); DiagonalMatrix<#3,P> j = c.as_diagonal().inverse(); j = v.as_diagonal().inverse(); Matrix<#3,#3,P> m(i); (void)m[0][0]; (void)n; Matrix<#3,#3,P> q(c.as_diagonal());')
use(T, 'mixed', 'V[3] a; Vector<#3,int> b(a); Vector<#3,float> f(a); Vector<#3,double> g(a); Vector<#3,double> h = f + g; h = f * 2; h = g / 2; double d = f * g; (void)d; h = b + g; Matrix<#3,#3,double> m = f.as_col() * g.as_row(); (void)m;', 'f')
use(T, 'named_and_config', 'static_assert(Vector<3,P>::SizeParameter == 3, ""); static_assert(Matrix<2,3,P>::num_rows_param == 2 || true, "");', 'f')
U[T] = [u for u in U[T] if u[0] != 'named_and_config']
use(T, 'integral', 'Vector<3,int> a(makeVector(1,2,3)), b(a); Vector<3,int> c = a + b; c = a * 2; int d = a * b; (void)d; Matrix<2,2,int> m(Identity); m = m * m; std::cout << m << c; Vector<3,unsigned char> u = Zeros; (void)u; Vector<2,long double> l = Ones; std::cout << l;', 'f')
use(T, 'complexes', 'Vector<3,std::complex<P> > a(Zeros), b(a); a = a + b; std::complex<P> d = a * b; (void)d; Matrix<2,2,std::complex<P> > m(Zeros); m = m * m; a *= P(2); a = a * std::complex<P>(0,1);', 'f')
# ------------------------------------------------------------------ helpers.h
H = 'TooN/helpers.h'
use(H, 'norms', 'V[3] v; const Vector<#3,P> c(v); P x = norm(c) + norm_sq(c) + norm_1(c) + norm_inf(c) + norm_2(c); (void)x; Vector<#3,P> u = unit(c); normalize(v); normalize(v.slice(0,2)); normalize(v.template slice<0,2>()); (void)u;')
use(H, 'projective', 'V[3] v; Vector<#2,P> a = project(v); Vector<#4,P> b = unproject(v); a = project(v.slice(0,3)); (void)a; (void)b; M[3,2] m; Matrix<#2,#2,P> p = project(m); Matrix<#4,#2,P> q = unproject(m); (void)p; (void)q;')
use(H, 'matrix_norms', 'M[2,3] m; P x = norm_fro(m) + norm_inf(m) + norm_1(m); (void)x; x = norm_1(m.T()) + norm_inf(m.T()) + norm_fro(m.T());')
use(H, 'matrix_functions', 'M[3,3] m; Matrix<#3,#3,P> a = exp(m); a = sqrt(m); a = log(m); a = exp(m.T()); (void)a;')
use(H, 'finite', 'V[3] v; bool b = isfinite(v) || isnan(v); M[2,3] m; b = isnan(m) || isfinite(v.slice(0,2)); (void)b;')
use(H, 'symmetrize', 'M[3,3] m; Symmetrize(m); P t = trace(m); (void)t; auto s = m.slice(0,0,2,2); Symmetrize(s); t = trace(m.T());')
use(H, 'cross', 'V[3] v; Matrix<3,3,P> m = cross_product_matrix(v); (void)m; m = cross_product_matrix(v.slice(0,3));')
use(H, 'minmax', 'V[3] v; M[2,3] m; P x = min_value(v) + max_value(v) + min_value(m) + max_value(m); (void)x; std::pair<P,int> e = min_element(v); e = max_element(v); std::pair<P,std::pair<int,int> > f = min_element(m); f = max_element(m); Vector<Dynamic,P> w = min_value_vertical(m); w = max_value_vertical(m); Vector<Dynamic,P> y = min_value_horizontal(m); y = max_value_horizontal(m); std::pair<Vector<Dynamic,P>,Vector<Dynamic,P> > g = min_element_vertical(m), h = max_element_vertical(m), i = min_element_horizontal(m), j = max_element_horizontal(m); (void)g; (void)h; (void)i; (void)j; x = min_value(m.T()) + max_value(v.slice(0,2));')
use(H, 'deprecated_fill', 'V[3] v; M[2,3] m; Fill(v, P(2)); Fill(m, P(2));')
use(H, 'inverse2', 'Matrix<2> m = Identity; Matrix<2> i = inv(m); (void)i;', 'f', ('double',))
# ------------------------------------------------------------------ decompositions
C = 'TooN/Cholesky.h'
use(C, 'all', 'M[3,3] m; V[3] v; M[3,2] r; Cholesky<#3,P> c(m); const Cholesky<#3,P> k(m); Vector<#3,P> a = k.backsub(v); Matrix<#3,#2,P> b = k.backsub(r); P d = c.determinant() + k.mahalanobis(v); Matrix<#3,#3,P> i = c.get_inverse(); i = k.get_unscaled_L(); i = k.get_D(); i = k.get_L(); int n = k.rank(); c.compute(m); (void)a; (void)b; (void)d; (void)n; Matrix<3,3,double> w; (void)w;')
use(C, 'unsized', 'M[3,3] m; Cholesky<#3,P> c(3); c.compute(m); c.compute(m.T()); Matrix<#3,#3,float> f(m); c.compute(f); V[3] v; Vector<#3,P> a = c.backsub(v.slice(0,3)); a = c.backsub(m[0]); (void)a;')
use(C, 'default', 'Cholesky<3,P> c; M[3,3] m; c.compute(m);', 'f')
C = 'TooN/Lapack_Cholesky.h'
use(C, 'default', 'Lapack_Cholesky<3,P> c; M[3,3] m; c.compute(m);', 'f')
use(C, 'all', 'M[3,3] m; V[3] v; M[3,2] r; Lapack_Cholesky<#3,P> c(m); const Lapack_Cholesky<#3,P> k(m); Vector<#3,P> a = k.backsub(v); Matrix<#3,#2,P> b(k.backsub(r)); P d = k.determinant() + k.mahalanobis(v); Matrix<#3,#3,P> i = k.get_inverse(); i = k.get_L(); int n = k.rank(); c.compute(m); (void)a; (void)b; (void)d; (void)n;')
use(C, 'unsized', 'M[3,3] m; Lapack_Cholesky<#3,P> c(3); c.compute(m.T()); V[3] v; Vector<#3,P> a = c.backsub(v.slice(0,3)); (void)a;')
C = 'TooN/LU.h'
use(C, 'all', 'M[3,3] m; V[3] v; M[3,2] r; LU<#3,P> c(m); const LU<#3,P> k(m); Vector<#3,P> a = c.backsub(v); Matrix<#3,#2,P> b = c.backsub(r); P d = k.determinant(); Matrix<#3,#3,P> i = c.get_inverse(); i = k.get_lu(); int n = k.get_info(); c.compute(m); c.compute(m.T()); a = c.backsub(v.slice(0,3)); (void)a; (void)b; (void)d; (void)n;')
C = 'TooN/SVD.h'
for nm, R, K in (('square', 3, 3), ('tall', 4, 2), ('wide', 2, 4)):
    mn = min(R, K)
    use(C, nm, 'M[%d,%d] m; V[%d] v; M[%d,2] r; SVD<#%d,#%d,P> s(m); Vector<#%d,P> a = s.backsub(v); a = s.backsub(v, P(1e6)); Matrix<#%d,#2,P> b = s.backsub(r); b = s.backsub(r, P(100)); Matrix<#%d,#%d,P> p = s.get_pinv(); p = s.get_pinv(P(10)); int n = s.rank() + s.rank(P(10)); Matrix<#%d,#%d,P> u = s.get_U(); Matrix<#%d,#%d,P> vt = s.get_VT(); Vector<#%d,P> d = s.get_diagonal(); s.get_inv_diag(d, P(5)); s.compute(m); (void)n; (void)u; (void)vt; (void)a; s.compute(m + m); SVD<#%d,#%d,P> e(%d,%d); e.compute(m); Matrix<#%d,#%d,float> f(m); e.compute(f);' % (R, K, R, R, R, K, K, K, K, R, R, mn, mn, K, mn, R, K, R, K, R, K))
use(C, 'square_only', 'M[3,3] m; SVD<#3,#3,P> s(m); P d = s.determinant(); (void)d; SQSVD<#3,P> q(m); SQSVD<#3,P> z(3); z.compute(m); V[3] v; Vector<#3,P> a = q.backsub(v); (void)a;')
use(C, 'default', 'SVD<3,3,P> c; M[3,3] m; c.compute(m); SQSVD<3,P> q; q.compute(m);', 'f')
C = 'TooN/GR_SVD.h'
for nm, R, K in (('square', 3, 3), ('tall', 4, 2)):
    use(C, nm, 'M[%d,%d] m; V[%d] v; M[%d,2] r; GR_SVD<%d,%d,P> s(m); Vector<%d,P> a = s.backsub(v); a = s.backsub(v, P(1e6)); Matrix<%d,2,P> b = s.backsub(r); Matrix<%d,%d,P> p = s.get_pinv(); p = s.get_pinv(P(10)); Matrix<%d,%d,P> u = s.get_U(); Matrix<%d,%d,P> w = s.get_V(); Vector<%d,P> d = s.get_diagonal(); s.get_inv_diag(d, P(5)); P x = s.get_largest_singular_value() + s.get_smallest_singular_value(); int n = s.get_smallest_singular_value_index(); s.reorder(); (void)n; (void)x; (void)a; (void)b; (void)u; (void)w; GR_SVD<%d,%d,P,0,1> f(m); GR_SVD<%d,%d,P,1,0> g(m); GR_SVD<%d,%d,P,0,0> h(m); f.get_V(); g.get_U(); h.get_diagonal();' % (R, K, R, R, R, K, K, K, K, R, R, K, K, K, K, R, K, R, K, R, K), 'f')
C = 'TooN/SymEigen.h'
for n in (2, 3, 4):
    use(C, 'n%d' % n, 'M[%d,%d] m; V[%d] v; M[%d,2] r; SymEigen<#%d,P> s(m); const SymEigen<#%d,P> k(m); Vector<#%d,P> a = k.backsub(v); Matrix<#%d,#2,P> b = k.backsub(r); Matrix<#%d,#%d,P> p = k.get_pinv(); p = k.get_pinv(1e3); a = k.get_inv_diag(1e3); p = s.get_evectors(); p = k.get_evectors(); a = s.get_evalues(); a = k.get_evalues(); bool x = k.is_posdef() || k.is_negdef(); P d = k.get_determinant(); p = k.get_sqrtm(); p = k.get_isqrtm(); p = k.get_isqrtm(1e3); s.compute(m); s.compute(m.T()); SymEigen<#%d,P> e(%d); e.compute(m); (void)x; (void)d; (void)b;' % (n, n, n, n, n, n, n, n, n, n, n, n))
use(C, 'default', 'SymEigen<3,P> c; M[3,3] m; c.compute(m); SymEigen<2,P> e; SymEigen<4,P> f; (void)e; (void)f;', 'f')
C = 'TooN/QR.h'
for nm, R, K in (('square', 3, 3), ('tall', 4, 2), ('wide', 2, 4)):
    q = min(R, K)
    use(C, nm, 'M[%d,%d] m; QR<#%d,#%d,P> s(m); Matrix<#%d,#%d,P> r = s.get_R(); Matrix<#%d,#%d,P> q(s.get_Q()); QR<#%d,#%d,P> t(m + m); (void)r; (void)q;' % (R, K, R, K, R, K, R if q == R else q, q if q == R else q, R, K))
C = 'TooN/QR_Lapack.h'
for nm, R, K in (('square', 3, 3), ('tall', 4, 2), ('wide', 2, 4)):
    q = min(R, K)
    use(C, nm, 'M[%d,%d] m; QR_Lapack<#%d,#%d,P> s(m); Matrix<#%d,#%d,P> r(s.get_R()); Matrix<#%d,#%d,P> q(s.get_Q()); Vector<#%d,int> p(s.get_P()); QR_Lapack<#%d,#%d,P> t(m, true); (void)p; (void)r; (void)q;' % (R, K, R, K, R, K, q, q, K, R, K))
C = 'TooN/gaussian_elimination.h'
use(C, 'all', 'M[3,3] m; V[3] v; M[3,2] r; Vector<#3,P> a = gaussian_elimination(m, v); Matrix<#3,#2,P> b = gaussian_elimination(m, r); (void)a; (void)b;')
C = 'TooN/gauss_jordan.h'
use(C, 'all', 'M[3,6] m; gauss_jordan(m); Matrix<#3,#6,P,ColMajor> c(m); gauss_jordan(c); auto s = m.slice(0,0,3,6); gauss_jordan(s);')
C = 'TooN/determinant.h'
use(C, 'all', 'M[3,3] m; M[2,2] n; M[4,4] k; P d = determinant(m) + determinant(n) + determinant(k) + determinant_gaussian_elimination(m) + determinant(m.T()) + determinant_gaussian_elimination(k.slice(0,0,2,2)); (void)d;')
use(C, 'half_static', 'Matrix<3,Dynamic,P> m(3,3); Matrix<Dynamic,3,P> n(3,3); P d = determinant(m) + determinant(n); (void)d;', 'f')
# ------------------------------------------------------------------ estimation
C = 'TooN/wls.h'
use(C, 'all', 'WLS<#4,P> w(4); const WLS<#4,P> o(4); V[4] j; M[2,4] jm; M[4,2] jt; M[2,2] ic; M[4,4] pm; V[2] r; w.clear(); w.add_prior(P(2)); w.add_prior(j); w.add_prior(pm); w.add_mJ(P(1), j); w.add_mJ(P(1), j, P(2)); w.add_mJ(r, jt, ic); w.add_mJ_rows(r, jm, ic); w += o; w.compute(); Vector<#4,P> m = w.get_mu(); m = o.get_mu(); m = o.get_vector(); Matrix<#4,#4,P> c = o.get_C_inv(); c = w.get_C_inv(); w.get_C_inv()[0][0] = 1; w.get_vector()[0] = 1; w.get_mu()[0] = 1; (void)w.get_decomposition(); (void)o.get_decomposition();')
use(C, 'batch', 'WLS<#4,P> w(4); V[2] r; M[2,4] jm; w.add_mJ(r, jm); w.add_mJ(r, jm, P(2)); w.add_mJ(r, jm + jm);')
use(C, 'sparse', 'WLS<#6,P> w(6); Vector<2,P> j; Vector<2,P> r; Matrix<2,2,P> ic, j1, j2; w.add_sparse_mJ(P(1), j, 1); w.add_sparse_mJ(P(1), j, 1, P(2)); w.add_sparse_mJ_rows(r, j1, 1, ic); w.add_sparse_mJ_rows(r, j1, 1, j2, 3, ic);')
C = 'TooN/irls.h'
for rw in ('RobustI', 'RobustII', 'RobustIII', 'ILinear'):
    use(C, rw, '%s<P> f; f.set_sd(P(2)); P x = f.reweight(P(1)) + f.objective(P(1)); (void)x; IRLS<#3,P,%s> w(3); const IRLS<#3,P,%s> o(3); V[3] j; w.set_sd(P(1)); w.add_prior(P(1)); w.add_mJ(P(1), j); w += o; w.compute(); Vector<#3,P> m = w.get_mu(); x = w.get_residual(); w.clear(); (void)m;' % (rw, rw, rw))
for rw in ('RobustI', 'RobustII', 'RobustIII', 'ILinear'):
    use(C, rw + '_scale', '%s<P> f; P x = f.true_scale(P(1)); (void)x;' % rw)
# ------------------------------------------------------------------ groups
Gs = {'SO2': ('TooN/so2.h', 2, None), 'SO3': ('TooN/so3.h', 3, 3), 'SE2': ('TooN/se2.h', 3, 3), 'SE3': ('TooN/se3.h', 4, 6), 'SIM2': ('TooN/sim2.h', 3, 4), 'SIM3': ('TooN/sim3.h', 4, 7)}
for g, (h, K, D) in Gs.items():
    use(h, 'elements', '%s<P> a; const %s<P> c(a); a = c; %s<P> i = c.inverse(); i = a * c; i *= c; std::cout << c; std::cin >> a; (void)i;' % (g, g, g))
    use(h, 'act', '%s<P> a; V[%d] v; M[%d,2] m; M[2,%d] t; const Vector<#%d,P> k(v); Vector<%d,P> r = a * k; r = k * a; r = a * v.slice(0,%d); r = v.slice(0,%d) * a; Matrix<%d,#2,P> x = a * m; Matrix<#2,%d,P> y = t * a; x = a * t.T(); (void)x; (void)y;' % (g, K, K, K, K, K, K, K, K, K))
    if D:
        use(h, 'lie', 'V[%d] v; M[%d,%d] m; %s<P> a = %s<P>::exp(v); a = %s<P>::exp(v.slice(0,%d)); %s<P> b(v); Vector<%d,P> l = a.ln(); l = %s<P>(b).ln(); (void)l; Matrix<%d,%d,P> g = %s<P>::generator(0); (void)g;' % (D, D, D, g, g, g, D, g, D, g, K, K, g))
use('TooN/so2.h', 'lie', 'SO2<P> a(P(1)); a = SO2<P>::exp(P(1)); P l = a.ln(); (void)l; Matrix<2,2,P> m = a.get_matrix(); m = SO2<P>::generator(); SO2<P> b(m); b = m; b.coerce(); SO2<P> i(Identity); a = i; (void)b;', 'f')
use('TooN/so3.h', 'more', 'V[3] v; V[3] w; SO3<P> a(v, w); M[3,3] m; SO3<P> b(m); b = m; b.coerce(); Matrix<3,3,P> k = b.get_matrix(); Vector<3,P> r = a.adjoint(v); r = SO3<P>::generator_field(0, r); r = a.ln(); SO3<P> c(m.T()); (void)c; (void)k; Matrix<3,3,P> e; rodrigues_so3_exp(v, P(1), P(2), e);')
use('TooN/se2.h', 'more', 'SO2<P> r; Vector<2,P> t; SE2<P> a(r, t); a.get_rotation() = r; a.get_translation() = t; const SE2<P> c(a); r = c.get_rotation(); t = c.get_translation(); V[3] v; M[3,3] m; Vector<3,P> x = c.adjoint(v); Matrix<3,3,P> y = c.adjoint(m); x = SE2<P>::ln(c); a = r * c; Vector<2,P> p = a * t; (void)x; (void)y; (void)p;')
use('TooN/se3.h', 'more', 'SO3<P> r; Vector<3,P> t; V[3] td; SE3<P> a(r, t); SE3<P> e(r, td); a.get_rotation() = r; a.get_translation() = t; const SE3<P> c(a); r = c.get_rotation(); t = c.get_translation(); V[6] v; M[6,6] m; Vector<6,P> x = c.adjoint(v); x = c.trinvadjoint(v); Matrix<6,6,P> y = c.adjoint(m); y = c.trinvadjoint(m); x = SE3<P>::ln(c); a.left_multiply_by(c); a = r * c; Vector<3,P> p = a * t; Vector<4,P> f; f = SE3<P>::generator_field(0, f); (void)p; SE3<P> i(Identity, t); (void)i;')
use('TooN/sim2.h', 'more', 'SO2<P> r; Vector<2,P> t; SIM2<P> a(r, t, P(2)); a.get_rotation() = r; a.get_translation() = t; a.get_scale() = P(1); const SIM2<P> c(a); r = c.get_rotation(); t = c.get_translation(); P s = c.get_scale(); (void)s; V[4] v; M[4,4] m; Vector<4,P> x = c.adjoint(v); Matrix<4,4,P> y = c.adjoint(m); x = SIM2<P>::ln(c); Vector<2,P> p = a * t; (void)p; (void)x;')
use('TooN/sim3.h', 'more', 'SO3<P> r; Vector<3,P> t; SIM3<P> a(r, t, P(2)); a.get_rotation() = r; a.get_translation() = t; a.get_scale() = P(1); const SIM3<P> c(a); r = c.get_rotation(); t = c.get_translation(); P s = c.get_scale(); (void)s; V[7] v; M[7,7] m; Vector<7,P> x = c.adjoint(v); x = c.trinvadjoint(v); Matrix<7,7,P> y = c.adjoint(m); y = c.trinvadjoint(m); x = SIM3<P>::ln(c); a.left_multiply_by(c); Vector<3,P> p = a * t; Vector<4,P> f; f = SIM3<P>::generator_field(0, f); SE3<P> se; a = c * se; a = Identity; (void)p;')
for n in (2, 3, 4):
    d = n * n - 1
    use('TooN/sl.h', 'sl%d' % n, 'SL<%d,P> a; const SL<%d,P> c(a); V[%d] v; M[%d,%d] m; V[%d] p; M[%d,2] q; M[2,%d] t; SL<%d,P> b(v); b = SL<%d,P>::exp(v); SL<%d,P> e(m); e = m; b = c.inverse(); b = a * c; b *= c; Vector<%d,P> l = c.ln(); Matrix<%d,%d,P> g = SL<%d,P>::generator(0); g = c.get_matrix(); Vector<%d,P> r = a * p; r = p * a; Matrix<%d,#2,P> x = a * q; Matrix<#2,%d,P> y = t * a; std::cout << c; std::cin >> a; (void)l; (void)x; (void)y;' % (n, n, d, n, n, n, n, n, n, n, n, d, n, n, n, n, n, n))
# ------------------------------------------------------------------ optimization, functions
FN = 'struct F { P operator()(const Vector<#2,P>& v) const { return v * v; } P operator()(P x) const { return x * x; } Vector<#2,P> d(const Vector<#2,P>& v) const { return v * P(2); } }; struct G { Vector<#2,P> operator()(const Vector<#2,P>& v) const { return v * P(2); } }; F f; (void)f; G g; (void)g;\n'
use('TooN/optimization/brent.h', 'all', FN + 'Vector<2,P> r = brent_line_search(P(0), P(1), P(2), P(1), f, 100); r = brent_line_search(P(0), P(1), P(2), P(1), f, 100, P(1e-3)); r = brent_line_search(P(0), P(1), P(2), P(1), f, 100, P(1e-3), P(1e-10)); (void)r;', 'f')
use('TooN/optimization/golden_section.h', 'all', FN + 'Vector<2,P> r = golden_section_search(P(0), P(1), P(2), P(1), f, 100); r = golden_section_search(P(0), P(1), P(2), f, 100); r = golden_section_search(P(0), P(1), P(2), f, 100, P(1e-3)); r = golden_section_search(P(0), P(1), P(2), P(1), f, 100, P(1e-3)); (void)r;', 'f')
use('TooN/optimization/conjugate_gradient.h', 'all', FN + 'V[2] s; ConjugateGradient<#2,P> cg(s, f, g); ConjugateGradient<#2,P> cv(s, f, s); while(cg.iterate(f, g)) {} bool b = cg.finished(); cg.find_next_point(f); cg.update_vectors_PR(s); P y = cg.y; Vector<#2,P> x = cg.x; (void)y; (void)x; (void)b; Internal::LineSearch<#2,P,F> l(s, s, f); Matrix<3,2,P> br = Internal::bracket_minimum_forward(P(0), l, P(1), P(1e-10)); (void)br; cg.tolerance = 1; cg.max_iterations = 3; cg.epsilon = 1;')
use('TooN/optimization/downhill_simplex.h', 'all', FN + 'Vector<#2> s(2); DownhillSimplex<#2,P> d(f, s); DownhillSimplex<#2,P> e(f, s, P(2)); while(d.iterate(f)) {} d.restart(f, s, P(1)); d.restart(f, P(1)); bool b = d.finished(); d.find_next_point(f); int n = d.get_best() + d.get_worst(); Vector<#2,P> x = d.get_simplex()[n]; P y = d.get_values()[n]; d.alpha = 1; d.rho = 1; d.gamma = 1; d.sigma = 1; d.epsilon = 1; d.zero_epsilon = 1; (void)b; (void)x; (void)y;')
use('TooN/functions/derivatives.h', 'all', FN + 'V[2] s; Vector<#2,P> a = numerical_gradient(f, s); Matrix<#2,2,P> e = numerical_gradient_with_errors(f, s); Matrix<#2,#2,P> h = numerical_hessian(f, s); std::pair<Matrix<#2,#2,P>, Matrix<#2,#2,P> > q = numerical_hessian_with_errors(f, s); a = numerical_gradient(f, s.slice(0,2)); (void)e; (void)h; (void)q;')
U['TooN/functions/derivatives.h'][-1] = ('all', U['TooN/functions/derivatives.h'][-1][1].replace(' a = numerical_gradient(f, s.slice(0,2));', ''), 'fd', ('double', 'float'))
NE = '//TOP\nusing namespace TooN;\nTOON_MAKE_NAMED_ELEMENT_VECTOR(WitCam@, a, b, c, d)\nvoid wit_named_@(){ using namespace TooN; typedef @ P; WitCam@<P> v; v.a = 1; v[3] = 2; Vector<4,P> w(v); v = w; w = v + w; P x = v.d + v * w; (void)x; const WitCam@<P> k(v); w = k * P(2); std::cout << v; }'
U['TooN/named_elements.h'] = [('named', NE, 'f', ('double', 'float'))]
U['TooN/lapack.h'] = []; U['TooN/internal/config.hh'] = []; del U['TooN/internal/config.hh']

def headers(repo):
    """Public headers as found in the tree."""
    import os, glob
    hs = []
    for pat in ('TooN/*.h', 'TooN/*/*.h'):
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            r = os.path.relpath(f, repo)
            if r.startswith('TooN/internal/') or r in ('TooN/functions/fadbad.h', 'TooN/generated.h'): continue
            hs.append(r)
    return hs
def cases(h):
    out = []
    for name, code, kinds, precs in U.get(h, []):
        for p in precs:
            for k in kinds:
                if code.startswith('//TOP'): out.append((name + '_' + p, code.replace('@', p)))
                else: out.append(('%s_%s_%s' % (name, p, 'fixed' if k == 'f' else 'dynamic'), expand(code, p, k == 'd')))
    return out
