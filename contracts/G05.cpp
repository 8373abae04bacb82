// G05: Jacobians of compose, inverse, rotate/transform, rotation/translation parts, conversion.
#include "wvc.hpp"
using namespace vc;
namespace {
// the angle-axis form of the identity itself is a separate branch (isolated point): derivative obligations exclude it
template <class A> std::enable_if_t<!std::is_base_of<QIn, A>{}> notIdentity(const A &) {}
template <class A> std::enable_if_t<std::is_base_of<QIn, A>{}> notIdentity(const A &a) { vc_assume_lt(0, a.q[1] * a.q[1] + a.q[2] * a.q[2] + a.q[3] * a.q[3]); }
template <class A, class B> void jCompose() { In<A> a("A"); In<B> b("B"); const auto e = a.leaf * b.leaf; const auto v = compose(a.val(), b.val()); ensureEq("A*B", view(eval(e)), v); /* the derivative obligations are on the (equal) abstract value */ ensureJac("d(A*B)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(A*B)/dB", v, e.jacobian(b.leaf), b); }
template <class A> void jInverse() { In<A> a("A"); const auto e = inverse(a.leaf); const auto v = view(eval(e)); ensureJac("d(inv A)/dA", v, e.jacobian(a.leaf), a); }
template <class A> void jAct() { In<A> a("A"); In<Translationd> p("p"); const auto e = a.leaf * p.leaf; const auto v = view(eval(e)); ensureJac("d(A*p)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(A*p)/dp", v, e.jacobian(p.leaf), p); }
template <class A> void jParts() { In<A> a("A"); { const auto e = a.leaf.rotation(); ensureJac("d(rotation)/dA", view(eval(e)), e.jacobian(a.leaf), a); } { const auto e = a.leaf.translation(); ensureJac("d(translation)/dA", view(eval(e)), e.jacobian(a.leaf), a); } }
template <class A> void jPartsOfExpr() { In<A> a("A"); In<A> b("B"); { const auto e = (a.leaf * b.leaf).rotation(); const auto v = view(eval(e)); ensureJac("d(rotation(A*B))/dA", v, e.jacobian(a.leaf), a); ensureJac("d(rotation(A*B))/dB", v, e.jacobian(b.leaf), b); } { const auto e = (a.leaf * b.leaf).translation(); const auto v = view(eval(e)); ensureJac("d(translation(A*B))/dA", v, e.jacobian(a.leaf), a); ensureJac("d(translation(A*B))/dB", v, e.jacobian(b.leaf), b); } }
template <class A> void jInvAct() { In<A> a("A"); In<Translationd> p("p"); const auto e = inverse(a.leaf) * p.leaf; const auto v = view(eval(e)); ensureJac("d(inv(A)*p)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(inv(A)*p)/dp", v, e.jacobian(p.leaf), p); }
template <class To, class A> void jConvert() { In<A> a("A"); notIdentity(a); const Convert<To, const A &> e{a.leaf}; ensureJac("d(convert)/dA", view(eval(e)), e.jacobian(a.leaf), a); }
template <class A> void jSelf() { In<A> a("A"); const auto e = a.leaf * a.leaf; const auto v = view(eval(e)); ensureJac("d(A*A)/dA", v, e.jacobian(a.leaf), a); }
template <class T, class R> void jRigidRot() { In<T> a("A"); In<R> b("B"); In<Translationd> p("p"); const auto e = a.leaf.rotation() * (b.leaf * p.leaf) + a.leaf.translation(); const auto v = view(eval(e)); ensureJac("/dA", v, e.jacobian(a.leaf), a); ensureJac("/dB", v, e.jacobian(b.leaf), b); ensureJac("/dp", v, e.jacobian(p.leaf), p); }
}
H(G05_compose_MM, jCompose<RM, RM>())
H(G05_compose_MQ, jCompose<RM, RQ>())
H(G05_compose_MA, jCompose<RM, RA>())
H(G05_inverse_M, jInverse<RM>())
H(G05_act_M, jAct<RM>())
H(G05_invact_M, jInvAct<RM>())
H(G05_self_M, jSelf<RM>())
H(G05_compose_QM, jCompose<RQ, RM>())
H(G05_compose_QQ, jCompose<RQ, RQ>())
H(G05_compose_QA, jCompose<RQ, RA>())
H(G05_inverse_Q, jInverse<RQ>())
H(G05_act_Q, jAct<RQ>())
H(G05_invact_Q, jInvAct<RQ>())
H(G05_self_Q, jSelf<RQ>())
H(G05_compose_AM, jCompose<RA, RM>())
H(G05_compose_AQ, jCompose<RA, RQ>())
H(G05_compose_AA, jCompose<RA, RA>())
H(G05_inverse_A, jInverse<RA>())
H(G05_act_A, jAct<RA>())
H(G05_invact_A, jInvAct<RA>())
H(G05_self_A, jSelf<RA>())
