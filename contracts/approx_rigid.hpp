#pragma once
// G20: approximate comparison of rigid transforms.
#include "compounds.hpp"
#include "explog.hpp"
#include "frames.hpp"
using namespace vc;
using Sc = Scalar<double>;
namespace {
inline bool le(double a, double b) { return !vc_lt(b, a); }
inline double absv(double a) { return vc_lt(a, 0) ? -a : a; }
inline bool within(const double *d, int n, double tol) { for (int i = 0; i < n; ++i) if (vc_lt(tol, fabs(d[i]))) return false; return true; }
inline bool within(V3 d, double tol) { return within(d.a, 3, tol); }
inline bool within(const Twist6 &d, double tol) { return within(d.w.a, 3, tol) && within(d.v.a, 3, tol); }
inline double tolerance() { const double t = vc_var("tolerance"); vc_assume_le(0, t); return t; }
// transforms: exactly when every component of the box-minus is within the tolerance
template <class A, class B> void transforms(const A &a, const B &b) { const double t = tolerance(); const auto d = eval(a - b); const bool x = a.isApprox(b, t); vc_ensure("isApprox", x == within(view(d), t)); }
template <class A, class B> void transformsDefault(const A &a, const B &b) { const auto d = eval(a - b); const bool x = a.isApprox(b); vc_ensure("isApprox, default tolerance", x == within(view(d), 1e-12)); }
template <class A, class B> void equal(const A &a, const B &b) { const double t = tolerance(); vc_ensure("equal elements", a.isApprox(b, t)); vc_ensure("equal elements, default tolerance", a.isApprox(b)); }
// vectors: relative comparison of the values
inline double sq(const double *d, int n) { double s = 0; for (int i = 0; i < n; ++i) s = s + d[i] * d[i]; return s; }
inline bool relative(const double *x, const double *y, int n, double t) { double d[6]; for (int i = 0; i < n; ++i) d[i] = x[i] - y[i]; const double a = sq(x, n), b = sq(y, n); return le(sq(d, n), t * t * (vc_lt(b, a) ? b : a)); }
inline bool relative(V3 x, V3 y, double t) { return relative(x.a, y.a, 3, t); }
inline bool relative(const Twist6 &x, const Twist6 &y, double t) { double a[6], b[6]; for (int i = 0; i < 3; ++i) { a[i] = x.w[i]; a[3 + i] = x.v[i]; b[i] = y.w[i]; b[3 + i] = y.v[i]; } return relative(a, b, 6, t); }
inline bool relative(double x, double y, double t) { const double a = absv(x), b = absv(y); return le(absv(x - y), t * (vc_lt(b, a) ? b : a)); }
template <class A, class B, class X, class Y> void vectors(const A &a, const B &b, const X &x, const Y &y) { const double t = tolerance(); { Ctx c("given tolerance"); vc_ensure("isApprox", a.isApprox(b, t) == relative(x, y, t)); } }
template <class A, class B, class X, class Y> void vectorsDefault(const A &a, const B &b, const X &x, const Y &y) { vc_ensure("isApprox, default tolerance", a.isApprox(b) == relative(x, y, 1e-12)); }
template <class L> void leaves() { In<L> a("a"), b("b"); vectors(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void leavesDefault() { In<L> a("a"), b("b"); vectorsDefault(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void reflexive() { In<L> a("a"); equal(a.leaf, a.leaf); const L b{a.leaf}; equal(a.leaf, b); }
template <class L> void zero() { In<L> a("a"); const double t = tolerance(); vc_ensure("isZero", a.leaf.isZero(t) == within(a.val(), t)); vc_ensure("of zero", L{L::Zero()}.isZero(t)); }
}
namespace {
// a: any transform with rotation angle in (0, pi), b: a fixed one. Which numbers the box-minus has is the matter of G04.
struct RigidIn { PhiIn p; V3 t; explicit RigidIn() : p("p", true), t(v3(vc_var_i("t", 0), vc_var_i("t", 1), vc_var_i("t", 2))) {} };
template <class L> L mk(const RigidIn &r);
template <> TM mk<TM>(const RigidIn &r) { return TM{eig(Rigid{r.p.R, r.t})}; }
template <> TQ mk<TQ>(const RigidIn &r) { TQ x; x.rotationBlock().value() = r.p.q(); x.translationBlock().value() = eig(r.t); return x; }
template <class L> L one();
template <> TM one<TM>() { return TM{Eigen::Matrix4d(Eigen::Matrix4d::Identity())}; }
template <> TQ one<TQ>() { TQ x; x.rotationBlock().value() = Eigen::Quaterniond::Identity(); x.translationBlock().value().setZero(); return x; }
template <class A, class B> void rigid() { RigidIn r; const A a = mk<A>(r); const B b = one<B>(); transforms(a, b); }
template <class A, class B> void rigidDefault() { RigidIn r; const A a = mk<A>(r); const B b = one<B>(); transformsDefault(a, b); }
}
