// G03: exponential and logarithm of rotations.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 8 * EPS;
inline void near(const char *l, const M3 &a, const M3 &b) { ensureNear(l, a, b, TOL); }
inline RotationMd logArg(const PhiIn &p, RotationMd *) { return RotationMd{p.m()}; }
inline RotationQd logArg(const PhiIn &p, RotationQd *) { return RotationQd{p.q()}; }
inline RotationAd logArg(const PhiIn &p, RotationAd *) { return RotationAd{Eigen::AngleAxisd(p.th, eig(p.a))}; }
template <class R> void expTo() { PhiIn p("P"); const RelativeRotationd r{eig(p.phi)}; const R q{exp(r)}; near("exp", view(q), p.R); }
void expEval() { PhiIn p("P"); const RelativeRotationd r{eig(p.phi)}; near("exp", view(eval(exp(r))), p.R); ensureEq("operand unchanged", view(r), p.phi); near("exp of temporary", view(eval(exp(RelativeRotationd{eig(p.phi)}))), p.R); }
template <class R> void expZeroTo() { const RelativeRotationd r{0., 0., 0.}; const R q{exp(r)}; ensureEq("exp(0)", view(q), eye()); valid(q); }
template <class R> void logOf() { PhiIn p("P", true); const R r = logArg(p, static_cast<R *>(nullptr)); ensureNear("log", view(eval(log(r))), p.phi, TOL * p.th); }
template <class R> void logOfId() { const R r{RotationMd{Eigen::Matrix3d{eig(eye())}}}; ensureEq("log(identity)", view(eval(log(r))), v3(0, 0, 0)); }
template <class R> void expOfLog() { PhiIn p("P", true); const R r = logArg(p, static_cast<R *>(nullptr)); near("exp(log R)", view(eval(exp(log(r)))), p.R); }
}
H(G03_exp_eval, expEval())
H(G03_exp_M, expTo<RM>())
H(G03_exp_Q, expTo<RQ>())
H(G03_exp0_M, expZeroTo<RM>())
H(G03_exp0_Q, expZeroTo<RQ>())
H(G03_exp0_A, expZeroTo<RA>())
H(G03_log_M, logOf<RM>())
H(G03_log_Q, logOf<RQ>())
H(G03_log_A, logOf<RA>())
H(G03_log0_M, logOfId<RM>())
H(G03_log0_Q, logOfId<RQ>())
H(G03_log0_A, logOfId<RA>())
H(G03_log_Qneg, { PhiIn p("P", true); const RQ r{p.q(-1)}; ensureNear("log", view(eval(log(r))), p.phi, TOL * p.th); })
H(G03_log_Aneg, { PhiIn p("P", true); const RA r{Eigen::AngleAxisd(-p.th, eig(-p.a))}; ensureNear("log", view(eval(log(r))), p.phi, TOL * p.th); })
H(G03_log_Awrap, { PhiIn p("P", true); const RA r{Eigen::AngleAxisd(2 * VC_PI - p.th, eig(-p.a))}; ensureNear("log", view(eval(log(r))), p.phi, TOL * p.th); })
H(G03_logexp, { PhiIn p("P", true); const RelativeRotationd r{eig(p.phi)}; ensureNear("log(exp phi)", view(eval(log(exp(r)))), p.phi, TOL * p.th); })
H(G03_explog_M, expOfLog<RM>())
H(G03_explog_Q, expOfLog<RQ>())
H(G03_loginv_M, { PhiIn p("P", true); const RM r{p.m()}; ensureNear("log(inverse R)", view(eval(log(inverse(r)))), -p.phi, TOL * p.th); })
H(G03_expneg, { PhiIn p("P"); const RelativeRotationd r{eig(p.phi)}; near("exp(-phi)", view(eval(exp(-r))), tr(p.R)); })
H(G03_angleaxis, { PhiIn p("P"); double s = vc_var("s"); vc_assume_lt(0, s); RelativeRotationd r; r.setFromAngleAndAxis(p.th, eig(s * p.a)); ensureEq("setFromAngleAndAxis", view(r), p.phi); ensureEq("FromAngleAndAxis", view(RelativeRotationd::FromAngleAndAxis(-p.th, eig(s * p.a))), -p.phi); ensureEq("components", view(RelativeRotationd{p.phi[0], p.phi[1], p.phi[2]}), p.phi); })
