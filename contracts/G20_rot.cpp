// G20: approximate comparison of rotations: every pair of representations, and expressions.
#include "compounds.hpp"
#include "explog.hpp"
#include "frames.hpp"
using namespace vc;
using Sc = Scalar<double>;
namespace {
inline bool le(double a, double b) { return !vc_lt(b, a); }
inline double absv(double a) { return vc_lt(a, 0) ? -a : a; }
inline bool within(const double *d, int n, double tol) { for (int i = 0; i < n; ++i) if (vc_lt(tol, fabs(d[i]))) return false; return true; }
inline bool within(V3 d, double tol) { return within(d.a, 3, tol); }
inline bool within(const Twist6 &d, double tol) { return within(d.w.a, 3, tol) && within(d.v.a, 3, tol); }
inline double tolerance() { const double t = vc_var("tolerance"); vc_assume_le(0, t); return t; }
// transforms: exactly when every component of the box-minus is within the tolerance
template <class A, class B> void transforms(const A &a, const B &b) { const double t = tolerance(); const auto d = eval(a - b); const bool x = a.isApprox(b, t); vc_ensure("isApprox", x == within(view(d), t)); }
template <class A, class B> void transformsDefault(const A &a, const B &b) { const auto d = eval(a - b); const bool x = a.isApprox(b); vc_ensure("isApprox, default tolerance", x == within(view(d), 1e-12)); }
template <class A, class B> void equal(const A &a, const B &b) { const double t = tolerance(); vc_ensure("equal elements", a.isApprox(b, t)); vc_ensure("equal elements, default tolerance", a.isApprox(b)); }
// vectors: relative comparison of the values
inline double sq(const double *d, int n) { double s = 0; for (int i = 0; i < n; ++i) s = s + d[i] * d[i]; return s; }
inline bool relative(const double *x, const double *y, int n, double t) { double d[6]; for (int i = 0; i < n; ++i) d[i] = x[i] - y[i]; const double a = sq(x, n), b = sq(y, n); return le(sq(d, n), t * t * (vc_lt(b, a) ? b : a)); }
inline bool relative(V3 x, V3 y, double t) { return relative(x.a, y.a, 3, t); }
inline bool relative(const Twist6 &x, const Twist6 &y, double t) { double a[6], b[6]; for (int i = 0; i < 3; ++i) { a[i] = x.w[i]; a[3 + i] = x.v[i]; b[i] = y.w[i]; b[3 + i] = y.v[i]; } return relative(a, b, 6, t); }
inline bool relative(double x, double y, double t) { const double a = absv(x), b = absv(y); return le(absv(x - y), t * (vc_lt(b, a) ? b : a)); }
template <class A, class B, class X, class Y> void vectors(const A &a, const B &b, const X &x, const Y &y) { const double t = tolerance(); { Ctx c("given tolerance"); vc_ensure("isApprox", a.isApprox(b, t) == relative(x, y, t)); } }
template <class A, class B, class X, class Y> void vectorsDefault(const A &a, const B &b, const X &x, const Y &y) { vc_ensure("isApprox, default tolerance", a.isApprox(b) == relative(x, y, 1e-12)); }
template <class L> void leaves() { In<L> a("a"), b("b"); vectors(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void leavesDefault() { In<L> a("a"), b("b"); vectorsDefault(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void reflexive() { In<L> a("a"); equal(a.leaf, a.leaf); const L b{a.leaf}; equal(a.leaf, b); }
template <class L> void zero() { In<L> a("a"); const double t = tolerance(); vc_ensure("isZero", a.leaf.isZero(t) == within(a.val(), t)); vc_ensure("of zero", L{L::Zero()}.isZero(t)); }
}
namespace {
// any pair of rotations: the comparison is that of the library's own box-minus (G04 gives its meaning)
template <class A, class B> void rotations() { In<A> a("a"); In<B> b("b"); transforms(a.leaf, b.leaf); }
template <class A, class B> void rotationsDefault() { In<A> a("a"); In<B> b("b"); transformsDefault(a.leaf, b.leaf); }
}
H(G20_rot_M_M, rotations<RM, RM>())
H(G20_rot_M_Q, rotations<RM, RQ>())
H(G20_rot_Q_M, rotations<RQ, RM>())
H(G20_rot_Q_Q, rotations<RQ, RQ>())
H(G20_rot_A_Q, rotations<RA, RQ>())
H(G20_rot_Q_A, rotations<RQ, RA>())
H(G20_rot_M_A, rotations<RM, RA>())
H(G20_rot_A_M, rotations<RA, RM>())
H(G20_rot_A_A, rotations<RA, RA>())
H(G20_rot_default_M, rotationsDefault<RM, RM>())
H(G20_rot_default_Q, rotationsDefault<RQ, RQ>())
H(G20_rot_default_A, rotationsDefault<RA, RM>())
H(G20_rot_expressions, In<RQ> a("a"); In<RM> b("b"); In<RQ> c("c"); transforms(a.leaf * b.leaf, inverse(c.leaf)))
H(G20_rot_framed, In<RM> a("a"); In<RQ> b("b"); const Framed<RM, FA, FB> x{a.leaf.value()}; const Framed<RQ, FA, FB> y{b.leaf.value()}; const double t = tolerance(); const auto d = eval(a.leaf - b.leaf); const bool r = x.isApprox(y, t); vc_ensure("isApprox", r == within(view(d), t)))
