// G03: exponential and logarithm of rigid transforms.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 8 * EPS;
inline Rigid rig(const PhiIn &p, V3 t) { return Rigid{p.R, t}; }
inline TM mk(const PhiIn &p, V3 t, TM *) { return TM{eig(Rigid{p.R, t})}; }
inline TQ mk(const PhiIn &p, V3 t, TQ *) { TQ x; x.rotationBlock().value() = p.q(); x.translationBlock().value() = eig(t); return x; }
inline void near(const char *l, const Rigid &a, const Rigid &b, double m) { Ctx c(l); ensureNear("rotation", a.R, b.R, TOL); ensureNear("translation", a.t, b.t, TOL * m); }
inline void nearTw(const char *l, const Twist6 &a, V3 w, V3 v, double th, double m) { Ctx c(l); ensureNear("rotation", a.w, w, TOL * th); ensureNear("translation", a.v, v, TOL * m); }
template <class T> void expTo() { PhiIn p("P"); MagIn v("v"); const Twistd x{twistVec(p.phi, v.v)}; const T r{exp(x)}; near("exp", view(r), Rigid{p.R, mul(p.V(), v.v)}, v.m); }
void expEval() { PhiIn p("P"); MagIn v("v"); const Twistd x{twistVec(p.phi, v.v)}; near("exp", view(eval(exp(x))), Rigid{p.R, mul(p.V(), v.v)}, v.m); ensureEq("operand unchanged", view(x), Twist6{p.phi, v.v}); }
template <class T> void expZero() { V3 v = v3(vc_var("x"), vc_var("y"), vc_var("z")); const Twistd x{twistVec(v3(0, 0, 0), v)}; const T r{exp(x)}; ensureEq("exp(0,v)", view(r), Rigid{eye(), v}); valid(r); ensureEq("log exp(0,v)", view(eval(log(r))), Twist6{v3(0, 0, 0), v}); }
// log of the transform exp(phi, v): gives (phi, v)
template <class T> void logOf() { PhiIn p("P", true); MagIn v("v"); const T x = mk(p, mul(p.V(), v.v), static_cast<T *>(nullptr)); nearTw("log", view(eval(log(x))), p.phi, v.v, p.th, v.m); }
template <class T> void expOfLog() { PhiIn p("P", true); MagIn v("v"); const T x = mk(p, v.v, static_cast<T *>(nullptr)); near("exp(log X)", view(eval(exp(log(x)))), Rigid{p.R, v.v}, v.m); }
}
H(G03_twist_exp_eval, expEval())
H(G03_twist_exp_M, expTo<TM>())
H(G03_twist_exp_Q, expTo<TQ>())
H(G03_twist_exp0_M, expZero<TM>())
H(G03_twist_exp0_Q, expZero<TQ>())
H(G03_rigid_log_M, logOf<TM>())
H(G03_rigid_log_Q, logOf<TQ>())
H(G03_rigid_explog_M, expOfLog<TM>())
H(G03_twist_parts, { PhiIn p("P"); MagIn v("v"); Twistd x{eig(p.phi), eig(v.v)}; ensureEq("Twist{w,v}", view(x), Twist6{p.phi, v.v}); const Twistd y{twistVec(p.phi, v.v)}; ensureEq("rotation()", view(y.rotation()), p.phi); ensureEq("translation()", view(y.translation()), v.v); x.rotation() = RelativeRotationd{eig(v.v)}; x.translation() = Translationd{eig(p.phi)}; ensureEq("assigned parts", view(x), Twist6{v.v, p.phi}); })
