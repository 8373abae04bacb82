// G06: Jacobians of box-minus for rigid transforms: X = exp(phi, v)*Y.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 16 * EPS;
inline M6 eye6() { return M6{eye(), zero3(), zero3(), eye()}; }
inline M6 neg6(const M6 &x) { return M6{neg(x.a), neg(x.b), neg(x.c), neg(x.d)}; }
template <class T> T rig(const Rigid &X, const double *, T *) { return T{eig(X)}; }
inline TQ rig(const Rigid &X, const double *q, TQ *) { TQ x; x.rotationBlock().value() = Eigen::Quaterniond(q[0], q[1], q[2], q[3]); x.translationBlock().value() = eig(X.t); return x; }
struct Sc : PhiIn { MagIn v; QIn q; V3 sg; Rigid E; Sc() : PhiIn("P", true), v("v"), q("Y") { for (int i = 0; i < 3; ++i) { sg[i] = vc_var_i("s", i); vc_assume_le(-1, sg[i]); vc_assume_le(sg[i], 1); } E = Rigid{R, mul(V(), v.v)}; } };
template <class X, class Y> void check(const Sc &p, const X &x, const Y &y) { const auto e = x - y; const M6 D = dexp(p, p.v.v); ensureNear("dexp*d(X-Y)/dX", mul(D, mat6(e.jacobian(x))), eye6(), TOL, p.v.m); ensureNear("dexp*d(X-Y)/dY", mul(D, mat6(e.jacobian(y))), neg6(adjoint(p.E)), TOL, p.v.m); }
template <class Y> void minusFromM() { Sc p; const Rigid B{p.q.R, p.v.m * p.sg}; const Y y = rig(B, p.q.q, static_cast<Y *>(nullptr)); const TM x{eig(compose(p.E, B))}; check(p, x, y); }
template <class X> void minusToM() { Sc p; const Rigid B{p.q.R, p.v.m * p.sg}; const X x = rig(B, p.q.q, static_cast<X *>(nullptr)); const TM y{eig(compose(inv(p.E), B))}; check(p, x, y); }
}
H(G06_rigid_minus_MM, minusFromM<TM>())
H(G06_rigid_minus_MQ, minusFromM<TQ>())
H(G06_rigid_minus_QM, minusToM<TQ>())
