// Dense matrices of the specification (plain arrays, no Eigen arithmetic), and the contract "this Eigen expression is
// that dense matrix": when constructed from, assigned, added, subtracted, multiplied into, and read by coefficient.
#pragma once
#include "wvc.hpp"
#include "compounds.hpp"
namespace vc {
static const char *const IY[20] = {"[0]", "[1]", "[2]", "[3]", "[4]", "[5]", "[6]", "[7]", "[8]", "[9]", "[10]", "[11]", "[12]", "[13]", "[14]", "[15]", "[16]", "[17]", "[18]", "[19]"};
struct D { int r, c; double a[12][12]; };
inline D dzero(int r, int c) { D m; m.r = r; m.c = c; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m.a[i][j] = 0; return m; }
inline D deye(int n) { D m = dzero(n, n); for (int i = 0; i < n; ++i) m.a[i][i] = 1; return m; }
inline D operator*(const D &a, const D &b) { D m = dzero(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) { double s = 0; for (int k = 0; k < a.c; ++k) s = s + a.a[i][k] * b.a[k][j]; m.a[i][j] = s; } return m; }
inline D operator+(const D &a, const D &b) { D m = a; for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m.a[i][j] = a.a[i][j] + b.a[i][j]; return m; }
inline D operator-(const D &a, const D &b) { D m = a; for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m.a[i][j] = a.a[i][j] - b.a[i][j]; return m; }
inline D operator-(const D &a) { D m = a; for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m.a[i][j] = -a.a[i][j]; return m; }
inline D operator*(double s, const D &a) { D m = a; for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m.a[i][j] = s * a.a[i][j]; return m; }
inline D dtr(const D &a) { D m = dzero(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m.a[j][i] = a.a[i][j]; return m; }
inline D dhat(const D &v) { D m = dzero(3, 3); m.a[0][1] = -v.a[2][0]; m.a[0][2] = v.a[1][0]; m.a[1][0] = v.a[2][0]; m.a[1][2] = -v.a[0][0]; m.a[2][0] = -v.a[1][0]; m.a[2][1] = v.a[0][0]; return m; }
inline D dblk(const D &m, int i0, int j0, int r, int c) { D x = dzero(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x.a[i][j] = m.a[i0 + i][j0 + j]; return x; }
inline D dset(D m, int i0, int j0, const D &x) { for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) m.a[i0 + i][j0 + j] = x.a[i][j]; return m; }
// an arbitrary matrix, and the same one as an Eigen object
inline D dvar(const char *n, int r, int c) { D m = dzero(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m.a[i][j] = vc_sym_i(n, i * c + j); return m; }
template <class M> void put(M &m, const D &d) { for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) m(i, j) = d.a[i][j]; }
template <int R, int C> Eigen::Matrix<double, R, C> fix(const D &d) { Eigen::Matrix<double, R, C> m; put(m, d); return m; }
inline Eigen::MatrixXd dyn(const D &d) { Eigen::MatrixXd m(d.r, d.c); put(m, d); return m; }
template <class M> void same(const char *l, const M &m, const D &d) { Ctx c(l); vc_ensure("shape", m.rows() == d.r && m.cols() == d.c); if (m.rows() != d.r || m.cols() != d.c) return; for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) { Ctx r(IY[i]); vc_ensure_eq(IY[j], m(i, j), d.a[i][j]); } }
template <class X> void is(const char *l, const X &x, const D &d) {
    Ctx c(l);
    using P = typename X::PlainObject;
    vc_ensure("shape of the expression", x.rows() == d.r && x.cols() == d.c);
    const P p(x); same("constructed", p, d);
    P q; q = x; same("assigned", q, d);
    const Eigen::MatrixXd y = x; same("dynamic", y, d);
    q += x; same("added", q, d + d);
    q -= x; same("subtracted", q, d);
}
// as an operand of Eigen's own operations
template <class X> void operand(const char *l, const X &x, const D &d) {
    Ctx c(l);
    const D m = dvar("Op", d.r, d.c); const Eigen::MatrixXd M = dyn(m);
    Eigen::MatrixXd y = M + x; same("M + x", y, m + d);
    y = x + M; same("x + M", y, d + m);
    y = M - x; same("M - x", y, m - d);
    y = x - M; same("x - M", y, d - m);
    y = x.transpose(); same("transpose", y, dtr(d));
    y = x * 2.5; same("x * 2.5", y, 2.5 * d);
    y = 2.5 * x; same("2.5 * x", y, 2.5 * d);
    y = -x; same("-x", y, -d);
    y = x.transpose() * M; same("transpose * M", y, dtr(d) * m);
    y = M.transpose() * x; same("M transposed * x", y, dtr(m) * d);
    y = x * M.transpose(); same("x * M transposed", y, d * dtr(m));
    y = M * x.transpose(); same("M * x transposed", y, m * dtr(d));
    y = M; y += x; same("M += x", y, m + d);
    y = M; y -= x; same("M -= x", y, m - d);
    y = M; y.noalias() += x; same("noalias", y, m + d);
    Eigen::MatrixXd z = Eigen::MatrixXd(d.r, 2 * d.c); z << M, x; same("comma", z, dset(dset(dzero(d.r, 2 * d.c), 0, 0, m), 0, d.c, d));
}
}  // namespace vc
