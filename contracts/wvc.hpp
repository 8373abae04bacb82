// Contract-side view of wave_geometry types: arbitrary valid inputs (with tangent directions) and the abstract
// value (rotation matrix, rigid transform, vector) denoted by each concrete type.
#pragma once
#include <wave/geometry/geometry.hpp>
#include "vc.hpp"
namespace vc {
using namespace wave;

// ------------------------------------------------------------- abstract values ("model" functions)
template <class T> M3 mat(const Eigen::MatrixBase<T> &m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = m.derived().coeff(i, j); return r; }
template <class T> V3 vec(const Eigen::MatrixBase<T> &m) { return v3(m.derived().coeff(0), m.derived().coeff(1), m.derived().coeff(2)); }
template <class I> M3 view(const MatrixRotation<I> &r) { return mat(r.value()); }
template <class I> M3 view(const QuaternionRotation<I> &r) { double q[4] = {r.value().w(), r.value().x(), r.value().y(), r.value().z()}; return qmat(q); }
template <class I> M3 view(const AngleAxisRotation<I> &r) { return axang(sin(r.value().angle()), cos(r.value().angle()), v3(r.value().axis()[0], r.value().axis()[1], r.value().axis()[2])); }
template <class I> V3 view(const wave::Translation<I> &t) { return vec(t.value()); }
template <class I> V3 view(const Point<I> &t) { return vec(t.value()); }
template <class I> V3 view(const RelativeRotation<I> &t) { return vec(t.value()); }
template <class I> Rigid view(const MatrixRigidTransform<I> &T) { Rigid r; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) r.R.a[i][j] = T.value().coeff(i, j); r.t[i] = T.value().coeff(i, 3); } return r; }
template <class Q, class V> Rigid view(const CompactRigidTransform<Q, V> &T) { return Rigid{view(T.rotationBlock()), view(T.translationBlock())}; }
template <class I> Twist6 view(const Twist<I> &t) { return Twist6{v3(t.value().coeff(0), t.value().coeff(1), t.value().coeff(2)), v3(t.value().coeff(3), t.value().coeff(4), t.value().coeff(5))}; }
template <class I> double view(const Scalar<I> &s) { return s.value(); }
inline double view(const double &s) { return s; }
template <class L, class... F> auto view(const Framed<L, F...> &f) { return view(L{f.value()}); }
template <class Q, class V, class... F> Rigid view(const Framed<CompactRigidTransform<Q, V>, F...> &f) { const CompactRigidTransform<Q, V> x{frame_cast<NoFrame, NoFrame>(f)}; return view(x); }

// ------------------------------------------------------------- validity (representation invariants)
inline void validM3(const M3 &m) { Ctx c("valid"); ensureEq("orthonormal", mul(m, tr(m)), eye()); vc_ensure_eq("determinant", det(m), 1); }
template <class I> void valid(const MatrixRotation<I> &r) { validM3(view(r)); }
template <class I> void valid(const QuaternionRotation<I> &r) { Ctx c("valid"); auto &q = r.value(); vc_ensure_eq("unit", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1); }
template <class I> void valid(const AngleAxisRotation<I> &r) { Ctx c("valid"); auto &q = r.value().axis(); vc_ensure_eq("unit axis", q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 1); }
template <class I> void valid(const MatrixRigidTransform<I> &T) { Ctx c("valid"); for (int j = 0; j < 4; ++j) vc_ensure_eq("last row", T.value().coeff(3, j), j == 3 ? 1 : 0); validM3(view(T).R); }
template <class Q, class V> void valid(const CompactRigidTransform<Q, V> &T) { valid(T.rotationBlock()); }
template <class T> void valid(const T &) {}

// ------------------------------------------------------------- arbitrary inputs
struct Tan { double c[6]; };
struct Dirs { int nd = 0; int dir[6]; Tan tan[6]; int dim = 3; };
inline void qdir(int k, const char *nm, const double *q, V3 w) {  // dq = 1/2 (0,w) q
    vc_dir_set(k, nm, 0, -0.5 * (w[0] * q[1] + w[1] * q[2] + w[2] * q[3]));
    vc_dir_set(k, nm, 1, 0.5 * (w[0] * q[0] + w[1] * q[3] - w[2] * q[2]));
    vc_dir_set(k, nm, 2, 0.5 * (-w[0] * q[3] + w[1] * q[0] + w[2] * q[1]));
    vc_dir_set(k, nm, 3, 0.5 * (w[0] * q[2] - w[1] * q[1] + w[2] * q[0]));
}
inline V3 unitE(int i) { V3 e = v3(0, 0, 0); e[i] = 1; return e; }
struct QIn : Dirs { const char *qn; double q[4]; M3 R; explicit QIn(const char *n) : qn(n) { vc_unit(n, q, 4); R = qmat(q); } void rotDirs() { dim = 3; for (int i = 0; i < 3; ++i) { int k = vc_dir_new(); qdir(k, qn, q, unitE(i)); dir[nd] = k; tan[nd] = Tan{{0, 0, 0, 0, 0, 0}}; tan[nd].c[i] = 1; ++nd; } } };
template <class L> struct In;
inline Eigen::Matrix3d eig(const M3 &m) { Eigen::Matrix3d r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = m.a[i][j]; return r; }
inline Eigen::Vector3d eig(const V3 &m) { return Eigen::Vector3d(m[0], m[1], m[2]); }
template <> struct In<RotationMd> : QIn { RotationMd leaf; explicit In(const char *n) : QIn(n), leaf(eig(R)) { rotDirs(); } const M3 &val() const { return R; } };
template <> struct In<RotationQd> : QIn { RotationQd leaf; explicit In(const char *n) : QIn(n), leaf(Eigen::Quaterniond(q[0], q[1], q[2], q[3])) { rotDirs(); } const M3 &val() const { return R; } };
// angle-axis: any angle in [-2pi, 2pi] (given through its half-angle variable), any unit axis.
template <> struct In<RotationAd> : Dirs {
    double th, u[3]; M3 R; RotationAd leaf;
    static Eigen::AngleAxisd mk(double th, const double *u) { return Eigen::AngleAxisd(th, Eigen::Vector3d(u[0], u[1], u[2])); }
    static double *init(const char *n, double *u) { vc_unit(n, u, 3); return u; }
    explicit In(const char *n) : th(vc_var_i(n, 9)), leaf(mk(th, init(n, u))) {
        V3 a = v3(u[0], u[1], u[2]); R = axang(sin(th), cos(th), a);
        dim = 3;
        { int k = vc_dir_new(); vc_dir_set(k, n, 9, 1); dir[nd] = k; tan[nd] = Tan{{u[0], u[1], u[2], 0, 0, 0}}; ++nd; }
        { V3 w = v3(vc_var_i(n, 6), vc_var_i(n, 7), vc_var_i(n, 8)); V3 du = cross(w, a); int k = vc_dir_new(); for (int i = 0; i < 3; ++i) vc_dir_set(k, n, i, du[i]); V3 o = sin(th) * du + (1 - cos(th)) * cross(a, du); dir[nd] = k; tan[nd] = Tan{{o[0], o[1], o[2], 0, 0, 0}}; ++nd; }
    }
    const M3 &val() const { return R; }
};
struct RtIn : QIn {  // translation variables are components 4..6
    V3 t; Rigid X;
    explicit RtIn(const char *n) : QIn(n) { t = v3(vc_var_i(n, 4), vc_var_i(n, 5), vc_var_i(n, 6)); X = Rigid{R, t}; }
    void rtDirs() { rotDirs(); dim = 6; for (int i = 0; i < 3; ++i) { V3 d = cross(unitE(i), t); for (int j = 0; j < 3; ++j) vc_dir_set(dir[i], qn, 4 + j, d[j]); } for (int i = 0; i < 3; ++i) { int k = vc_dir_new(); vc_dir_set(k, qn, 4 + i, 1); dir[nd] = k; tan[nd] = Tan{{0, 0, 0, 0, 0, 0}}; tan[nd].c[3 + i] = 1; ++nd; } }
    const Rigid &val() const { return X; }
};
inline Eigen::Matrix4d eig(const Rigid &X) { Eigen::Matrix4d r; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { r(i, j) = X.R.a[i][j]; } r(i, 3) = X.t[i]; r(3, i) = 0; } r(3, 3) = 1; return r; }
template <> struct In<RigidTransformMd> : RtIn { RigidTransformMd leaf; explicit In(const char *n) : RtIn(n), leaf(eig(X)) { rtDirs(); } };
template <> struct In<RigidTransformQd> : RtIn { RigidTransformQd leaf; explicit In(const char *n) : RtIn(n) { leaf.rotationBlock().value() = Eigen::Quaterniond(q[0], q[1], q[2], q[3]); leaf.translationBlock().value() = eig(t); rtDirs(); } };
template <class L> struct VecIn : Dirs { V3 v; L leaf; explicit VecIn(const char *n) : v(v3(vc_var_i(n, 0), vc_var_i(n, 1), vc_var_i(n, 2))), leaf(eig(v)) { dim = 3; for (int i = 0; i < 3; ++i) { int k = vc_dir_new(); vc_dir_set(k, n, i, 1); dir[nd] = k; tan[nd] = Tan{{0, 0, 0, 0, 0, 0}}; tan[nd].c[i] = 1; ++nd; } } const V3 &val() const { return v; } };
template <> struct In<Translationd> : VecIn<Translationd> { using VecIn::VecIn; };
template <> struct In<Pointd> : VecIn<Pointd> { using VecIn::VecIn; };
template <> struct In<RelativeRotationd> : VecIn<RelativeRotationd> { using VecIn::VecIn; };
inline Eigen::Matrix<double, 6, 1> eig(const Twist6 &t) { Eigen::Matrix<double, 6, 1> m; for (int i = 0; i < 3; ++i) { m(i) = t.w[i]; m(3 + i) = t.v[i]; } return m; }
template <> struct In<Twistd> : Dirs { Twist6 x; Twistd leaf; explicit In(const char *n) : x{v3(vc_var_i(n, 0), vc_var_i(n, 1), vc_var_i(n, 2)), v3(vc_var_i(n, 3), vc_var_i(n, 4), vc_var_i(n, 5))}, leaf(eig(x)) { dim = 6; for (int i = 0; i < 6; ++i) { int k = vc_dir_new(); vc_dir_set(k, n, i, 1); dir[nd] = k; tan[nd] = Tan{{0, 0, 0, 0, 0, 0}}; tan[nd].c[i] = 1; ++nd; } } const Twist6 &val() const { return x; } };
template <> struct In<Scalar<double>> : Dirs { double x; Scalar<double> leaf; explicit In(const char *n) : x(vc_var_i(n, 0)), leaf(x) { dim = 1; int k = vc_dir_new(); vc_dir_set(k, n, 0, 1); dir[nd] = k; tan[nd] = Tan{{1, 0, 0, 0, 0, 0}}; ++nd; } const double &val() const { return x; } };
inline void ensureEq(const char *l, const Twist6 &a, const Twist6 &b) { Ctx c(l); ensureEq("rotation", a.w, b.w); ensureEq("translation", a.v, b.v); }

// ------------------------------------------------------------- derivative contracts
// out: abstract result, J: reported Jacobian, in: operand with its tangent directions.
template <class JT> double jrow(const JT &J, int r, const Tan &t, int dim) { double s = J.coeff(r, 0) * t.c[0]; for (int j = 1; j < dim; ++j) s = s + J.coeff(r, j) * t.c[j]; return s; }
template <class JT> V3 jmul(const JT &J, int row0, const Tan &t, int dim) { return v3(jrow(J, row0, t, dim), jrow(J, row0 + 1, t, dim), jrow(J, row0 + 2, t, dim)); }
inline void derivRot(int k, const M3 &R, V3 w) { ensureEq("d/dX", diff(k, R), mul(hat(w), R)); }
template <class JT> void ensureJac(const char *l, const M3 &out, const JT &J, const Dirs &in) { Ctx c(l); vc_ensure("shape", J.rows() == 3 && J.cols() == in.dim); for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); derivRot(in.dir[i], out, jmul(J, 0, in.tan[i], in.dim)); } }
template <class JT> void ensureJac(const char *l, const Rigid &out, const JT &J, const Dirs &in) { Ctx c(l); vc_ensure("shape", J.rows() == 6 && J.cols() == in.dim); for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); V3 w = jmul(J, 0, in.tan[i], in.dim), v = jmul(J, 3, in.tan[i], in.dim); derivRot(in.dir[i], out.R, w); ensureEq("dt", diff(in.dir[i], out.t), cross(w, out.t) + v); } }
template <class JT> void ensureJac(const char *l, const V3 &out, const JT &J, const Dirs &in) { Ctx c(l); vc_ensure("shape", J.rows() == 3 && J.cols() == in.dim); for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); ensureEq("d/dx", diff(in.dir[i], out), jmul(J, 0, in.tan[i], in.dim)); } }
template <class JT> void ensureJac(const char *l, const Twist6 &out, const JT &J, const Dirs &in) { Ctx c(l); vc_ensure("shape", J.rows() == 6 && J.cols() == in.dim); for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); ensureEq("dw", diff(in.dir[i], out.w), jmul(J, 0, in.tan[i], in.dim)); ensureEq("dv", diff(in.dir[i], out.v), jmul(J, 3, in.tan[i], in.dim)); } }
template <class JT> void ensureJac(const char *l, const double &out, const JT &J, const Dirs &in) { Ctx c(l); vc_ensure("shape", J.rows() == 1 && J.cols() == in.dim); for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); vc_ensure_eq("d/dx", vc_diff(in.dir[i], out), jrow(J, 0, in.tan[i], in.dim)); } }
template <class JA, class JB> void ensureEqMat(const char *l, const JA &a, const JB &b) { Ctx c(l); vc_ensure("shape", a.rows() == b.rows() && a.cols() == b.cols()); if (a.rows() != b.rows() || a.cols() != b.cols()) return; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { Ctx r(IX[i]); vc_ensure_eq(IX[j], a.coeff(i, j), b.coeff(i, j)); } }

using RM = RotationMd; using RQ = RotationQd; using RA = RotationAd; using TM = RigidTransformMd; using TQ = RigidTransformQd;
// meaning of the group operations on abstract values
inline M3 compose(const M3 &a, const M3 &b) { return mul(a, b); }
inline M3 inv(const M3 &a) { return tr(a); }
inline V3 act(const M3 &a, V3 p) { return mul(a, p); }
inline V3 act(const Rigid &a, V3 p) { return mul(a.R, p) + a.t; }
inline const M3 &rotOf(const M3 &a) { return a; }
inline const M3 &rotOf(const Rigid &a) { return a.R; }
#define H(name, ...) extern "C" void H_##name() { __VA_ARGS__; }
}  // namespace vc
