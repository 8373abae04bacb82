// G06: Jacobians of exp, log, box-plus and box-minus for rigid transforms.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 16 * EPS;
inline M6 eye6() { return M6{eye(), zero3(), zero3(), eye()}; }
inline M6 neg6(const M6 &x) { return M6{neg(x.a), neg(x.b), neg(x.c), neg(x.d)}; }
inline TM mk(const PhiIn &p, V3 t, TM *) { return TM{eig(Rigid{p.R, t})}; }
inline TQ mk(const PhiIn &p, V3 t, TQ *) { TQ x; x.rotationBlock().value() = p.q(); x.translationBlock().value() = eig(t); return x; }
template <class JT> void shape6(const JT &J) { vc_ensure("shape", J.rows() == 6 && J.cols() == 6); }
template <class T> void jLog() { PhiIn p("P", true); MagIn v("v"); const T x = mk(p, mul(p.V(), v.v), static_cast<T *>(nullptr)); const auto J = log(x).jacobian(x); shape6(J); ensureNear("dexp*dlog", mul(dexp(p, v.v), mat6(J)), eye6(), TOL, v.m); }
template <class T> void jLog0() { V3 t = v3(vc_var("x"), vc_var("y"), vc_var("z")); const T x{TM{eig(Rigid{eye(), t})}}; const auto J = log(x).jacobian(x); shape6(J); Ctx c("dlog at zero rotation"); ensureEq("rot/rot", mat3(J, 0, 0), eye()); ensureEq("rot/trans", mat3(J, 0, 3), zero3()); ensureEq("trans/rot", mat3(J, 3, 0), scale(-0.5, hat(t))); ensureEq("trans/trans", mat3(J, 3, 3), eye()); }
template <class T> void jPlus() { In<T> x("X"); PhiIn p("P"); MagIn v("v"); const Twistd d{twistVec(p.phi, v.v)}; const auto e = x.leaf + d; ensureNear("d(X+d)/dd", mat6(e.jacobian(d)), dexp(p, v.v), TOL, v.m); ensureNear("d(X+d)/dX", mat6(e.jacobian(x.leaf)), adjoint(Rigid{p.R, mul(p.V(), v.v)}), TOL, v.m); }
template <class T> void jPlus0() { In<T> x("X"); V3 v = v3(vc_var_i("v", 0), vc_var_i("v", 1), vc_var_i("v", 2)); const Twistd d{twistVec(v3(0, 0, 0), v)}; const auto e = x.leaf + d; const M6 J = mat6(e.jacobian(d)), K = mat6(e.jacobian(x.leaf)); ensureEq("d(X+d)/dd rr", J.a, eye()); ensureEq("d(X+d)/dd rt", J.b, zero3()); ensureEq("d(X+d)/dd tr", J.c, scale(0.5, hat(v))); ensureEq("d(X+d)/dd tt", J.d, eye()); ensureEq("d(X+d)/dX rr", K.a, eye()); ensureEq("d(X+d)/dX rt", K.b, zero3()); ensureEq("d(X+d)/dX tr", K.c, hat(v)); ensureEq("d(X+d)/dX tt", K.d, eye()); }
}
H(G06_twist_exp, { PhiIn p("P"); MagIn v("v"); const Twistd x{twistVec(p.phi, v.v)}; const auto J = exp(x).jacobian(x); shape6(J); ensureNear("dexp", mat6(J), dexp(p, v.v), TOL, v.m); })
H(G06_twist_exp0, { V3 v = v3(vc_var("x"), vc_var("y"), vc_var("z")); const Twistd x{twistVec(v3(0, 0, 0), v)}; const auto J = exp(x).jacobian(x); shape6(J); ensureEq("rr", mat3(J, 0, 0), eye()); ensureEq("rt", mat3(J, 0, 3), zero3()); ensureEq("tr", mat3(J, 3, 0), scale(0.5, hat(v))); ensureEq("tt", mat3(J, 3, 3), eye()); })
H(G06_rigid_log_M, jLog<TM>())
H(G06_rigid_log_Q, jLog<TQ>())
H(G06_rigid_log0_M, jLog0<TM>())
H(G06_rigid_log0_Q, jLog0<TQ>())
H(G06_rigid_plus_M, jPlus<TM>())
H(G06_rigid_plus_Q, jPlus<TQ>())
H(G06_rigid_plus0_M, jPlus0<TM>())
H(G06_rigid_plus0_Q, jPlus0<TQ>())
