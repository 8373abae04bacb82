// G06: Jacobians of box-minus for rotations: X = exp(phi)*Y, so X - Y = phi.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 8 * EPS;
template <class X, class Y> void check(const PhiIn &p, const X &x, const Y &y) { const auto e = x - y; ensureNear("dexp*d(X-Y)/dX", mul(p.V(), mat3(e.jacobian(x))), eye(), TOL); ensureNear("dexp*d(X-Y)/dY", mul(p.V(), mat3(e.jacobian(y))), neg(p.R), TOL); }
template <class Y> void minusM() { PhiIn p("P", true); In<Y> y("Y"); const RM x{eig(mul(p.R, y.val()))}; check(p, x, y.leaf); }
// X in any representation, Y = exp(-phi)*X as a matrix
template <class X> void minusToM() { PhiIn p("P", true); In<X> x("X"); const RM y{eig(mul(tr(p.R), x.val()))}; check(p, x.leaf, y); }
void minusQQ() { PhiIn p("P", true); In<RQ> y("Y"); Eigen::Quaterniond q = p.q(), r(y.q[0], y.q[1], y.q[2], y.q[3]); Eigen::Quaterniond z(q.w() * r.w() - q.x() * r.x() - q.y() * r.y() - q.z() * r.z(), q.w() * r.x() + q.x() * r.w() + q.y() * r.z() - q.z() * r.y(), q.w() * r.y() - q.x() * r.z() + q.y() * r.w() + q.z() * r.x(), q.w() * r.z() + q.x() * r.y() - q.y() * r.x() + q.z() * r.w()); const RQ x{z}; check(p, x, y.leaf); }
template <class X> void minusSame() { In<X> x("X"); const X y{x.leaf}; const auto e = x.leaf - y; ensureEq("d(X-X)/dX", mat3(e.jacobian(x.leaf)), eye()); ensureEq("d(X-X)/dY", mat3(e.jacobian(y)), neg(eye())); }
}
H(G06_minus_MM, minusM<RM>())
H(G06_minus_MQ, minusM<RQ>())
H(G06_minus_MA, minusM<RA>())
H(G06_minus_QM, minusToM<RQ>())
H(G06_minus_AM, minusToM<RA>())
H(G06_minus_QQ, minusQQ())
H(G06_minus0_M, minusSame<RM>())
H(G06_minus0_Q, minusSame<RQ>())
H(G06_minus0_A, minusSame<RA>())
