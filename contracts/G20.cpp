// G20: approximate comparison. The boolean returned is proved equal, on every path, to its definition.
#include "compounds.hpp"
#include "explog.hpp"
#include "frames.hpp"
using namespace vc;
using Sc = Scalar<double>;
namespace {
inline bool le(double a, double b) { return !vc_lt(b, a); }
inline double absv(double a) { return vc_lt(a, 0) ? -a : a; }
inline bool within(const double *d, int n, double tol) { for (int i = 0; i < n; ++i) if (vc_lt(tol, fabs(d[i]))) return false; return true; }
inline bool within(V3 d, double tol) { return within(d.a, 3, tol); }
inline bool within(const Twist6 &d, double tol) { return within(d.w.a, 3, tol) && within(d.v.a, 3, tol); }
inline double tolerance() { const double t = vc_var("tolerance"); vc_assume_le(0, t); return t; }
// transforms: exactly when every component of the box-minus is within the tolerance
template <class A, class B> void transforms(const A &a, const B &b) { const double t = tolerance(); const auto d = eval(a - b); const bool x = a.isApprox(b, t); vc_ensure("isApprox", x == within(view(d), t)); }
template <class A, class B> void transformsDefault(const A &a, const B &b) { const auto d = eval(a - b); const bool x = a.isApprox(b); vc_ensure("isApprox, default tolerance", x == within(view(d), 1e-12)); }
template <class A, class B> void equal(const A &a, const B &b) { const double t = tolerance(); vc_ensure("equal elements", a.isApprox(b, t)); vc_ensure("equal elements, default tolerance", a.isApprox(b)); }
// vectors: relative comparison of the values
inline double sq(const double *d, int n) { double s = 0; for (int i = 0; i < n; ++i) s = s + d[i] * d[i]; return s; }
inline bool relative(const double *x, const double *y, int n, double t) { double d[6]; for (int i = 0; i < n; ++i) d[i] = x[i] - y[i]; const double a = sq(x, n), b = sq(y, n); return le(sq(d, n), t * t * (vc_lt(b, a) ? b : a)); }
inline bool relative(V3 x, V3 y, double t) { return relative(x.a, y.a, 3, t); }
inline bool relative(const Twist6 &x, const Twist6 &y, double t) { double a[6], b[6]; for (int i = 0; i < 3; ++i) { a[i] = x.w[i]; a[3 + i] = x.v[i]; b[i] = y.w[i]; b[3 + i] = y.v[i]; } return relative(a, b, 6, t); }
inline bool relative(double x, double y, double t) { const double a = absv(x), b = absv(y); return le(absv(x - y), t * (vc_lt(b, a) ? b : a)); }
template <class A, class B, class X, class Y> void vectors(const A &a, const B &b, const X &x, const Y &y) { const double t = tolerance(); { Ctx c("given tolerance"); vc_ensure("isApprox", a.isApprox(b, t) == relative(x, y, t)); } }
template <class A, class B, class X, class Y> void vectorsDefault(const A &a, const B &b, const X &x, const Y &y) { vc_ensure("isApprox, default tolerance", a.isApprox(b) == relative(x, y, 1e-12)); }
template <class L> void leaves() { In<L> a("a"), b("b"); vectors(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void leavesDefault() { In<L> a("a"), b("b"); vectorsDefault(a.leaf, b.leaf, a.val(), b.val()); }
template <class L> void reflexive() { In<L> a("a"); equal(a.leaf, a.leaf); const L b{a.leaf}; equal(a.leaf, b); }
template <class L> void zero() { In<L> a("a"); const double t = tolerance(); vc_ensure("isZero", a.leaf.isZero(t) == within(a.val(), t)); vc_ensure("of zero", L{L::Zero()}.isZero(t)); }
}
H(G20_vector, leaves<Translationd>())
H(G20_vector_default, leavesDefault<Translationd>())
H(G20_point, leaves<Pointd>())
H(G20_relative, leaves<RelativeRotationd>())
H(G20_twist, leaves<Twistd>())
H(G20_scalar, leaves<Sc>())
H(G20_scalar_default, leavesDefault<Sc>())
H(G20_vector_reflexive, reflexive<Translationd>())
H(G20_point_reflexive, reflexive<Pointd>())
H(G20_twist_reflexive, reflexive<Twistd>())
H(G20_scalar_reflexive, reflexive<Sc>())
H(G20_vector_zero, zero<Translationd>())
H(G20_twist_zero, zero<Twistd>())
H(G20_scalar_zero, In<Sc> a("a"); const double t = tolerance(); vc_ensure("isZero", a.leaf.isZero(t) == within(&a.val(), 1, t)))
H(G20_vector_expressions, In<Translationd> a("a"), b("b"), c("c"); vectors(a.leaf + b.leaf, c.leaf, a.val() + b.val(), c.val()))
H(G20_vector_expressions2, In<Translationd> a("a"), b("b"); In<RM> R("R"); vectors(a.leaf, R.leaf * b.leaf, a.val(), act(R.val(), b.val())))
H(G20_scalar_expressions, In<Sc> a("a"), b("b"), c("c"); vectors(a.leaf * b.leaf, -c.leaf, a.val() * b.val(), -c.val()))
H(G20_vector_framed, In<Translationd> a("a"), b("b"); Framed<Translationd, FA, FA, FB> x{a.leaf.value()}, y{b.leaf.value()}; vectors(x, y, a.val(), b.val()))
// ------------------------------------------------------------- rotations and rigid transforms
namespace {
// equal elements have box-minus zero, and so compare equal (by the contract above)
inline void isZero(V3 v) { ensureEq("box-minus", v, v3(0, 0, 0)); }
inline void isZero(const Twist6 &v) { isZero(v.w); isZero(v.v); }
template <class A, class B> void zeroDiff(const char *l, const A &a, const B &b) { Ctx c(l); isZero(view(eval(a - b))); }
template <class A> void self() { In<A> a("a"); zeroDiff("a-a", a.leaf, a.leaf); }
// any pair of rotations: the comparison is that of the library's own box-minus (G04 gives its meaning)
template <class A, class B> void rotations() { In<A> a("a"); In<B> b("b"); transforms(a.leaf, b.leaf); }
template <class A, class B> void rotationsDefault() { In<A> a("a"); In<B> b("b"); transformsDefault(a.leaf, b.leaf); }
template <class A, class B> void equalRot() { In<A> a("a"); const B b{a.leaf}; zeroDiff("a-b", a.leaf, b); zeroDiff("b-a", b, a.leaf); }
}
H(G20_self_M, self<RM>())
H(G20_self_Q, self<RQ>())
H(G20_self_A, self<RA>())
H(G20_equal_M_Q, equalRot<RM, RQ>())
H(G20_equal_Q_M, equalRot<RQ, RM>())
H(G20_equal_A_M, equalRot<RA, RM>())
H(G20_equal_A_Q, equalRot<RA, RQ>())
H(G20_self_TM, self<TM>())
H(G20_self_TQ, self<TQ>())
H(G20_equal_TQ_TM, equalRot<TQ, TM>())
// ------------------------------------------------------------- compounds: element by element
namespace {
using Pr = cmp::Pair<Translationd, Sc>;
using Tri = cmp::Triple<Sc, RelativeRotationd, Sc>;
}
H(G20_compound, In<Translationd> a("a"), b("b"); In<Sc> x("x"), y("y"); const double t = tolerance(); const Pr p{a.leaf, x.leaf}, q{b.leaf, y.leaf}; const bool r = p.isApprox(q, t); vc_ensure("isApprox", r == (relative(a.val(), b.val(), t) && relative(x.val(), y.val(), t))))
H(G20_compound_three, In<Sc> a("a"), b("b"); In<RelativeRotationd> v("v"), w("w"); In<Sc> x("x"), y("y"); const double t = tolerance(); const Tri p{a.leaf, v.leaf, x.leaf}, q{b.leaf, w.leaf, y.leaf}; const bool r = p.isApprox(q, t); vc_ensure("isApprox", r == (relative(a.val(), b.val(), t) && relative(v.val(), w.val(), t) && relative(x.val(), y.val(), t))))
H(G20_compound_default, In<Translationd> a("a"), b("b"); In<Sc> x("x"), y("y"); const Pr p{a.leaf, x.leaf}, q{b.leaf, y.leaf}; const bool r = p.isApprox(q); vc_ensure("isApprox", r == (relative(a.val(), b.val(), 1e-12) && relative(x.val(), y.val(), 1e-12))))
H(G20_compound_reflexive, In<Translationd> a("a"); In<Sc> x("x"); const Pr p{a.leaf, x.leaf}; equal(p, p); const Pr q{p}; equal(p, q))
H(G20_compound_expression, In<Translationd> a("a"), b("b"), c("c"); In<Sc> x("x"), y("y"); const double t = tolerance(); const auto e0 = a.leaf + c.leaf; const auto e1 = x.leaf * y.leaf; const cmp::Pair<decltype(e0), decltype(e1)> p{e0, e1}; const Pr q{b.leaf, y.leaf}; const bool r = p.isApprox(q, t); vc_ensure("isApprox", r == (relative(a.val() + c.val(), b.val(), t) && relative(x.val() * y.val(), y.val(), t))))
