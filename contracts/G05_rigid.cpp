// G05: Jacobians of compose, inverse, rotate/transform, rotation/translation parts, conversion.
#include "wvc.hpp"
using namespace vc;
namespace {
// the angle-axis form of the identity itself is a separate branch (isolated point): derivative obligations exclude it
template <class A> std::enable_if_t<!std::is_base_of<QIn, A>{}> notIdentity(const A &) {}
template <class A> std::enable_if_t<std::is_base_of<QIn, A>{}> notIdentity(const A &a) { vc_assume_lt(0, a.q[1] * a.q[1] + a.q[2] * a.q[2] + a.q[3] * a.q[3]); }
template <class A, class B> void jCompose() { In<A> a("A"); In<B> b("B"); const auto e = a.leaf * b.leaf; const auto v = compose(a.val(), b.val()); ensureEq("A*B", view(eval(e)), v); /* the derivative obligations are on the (equal) abstract value */ ensureJac("d(A*B)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(A*B)/dB", v, e.jacobian(b.leaf), b); }
template <class A> void jInverse() { In<A> a("A"); const auto e = inverse(a.leaf); const auto v = view(eval(e)); ensureJac("d(inv A)/dA", v, e.jacobian(a.leaf), a); }
template <class A> void jAct() { In<A> a("A"); In<Translationd> p("p"); const auto e = a.leaf * p.leaf; const auto v = view(eval(e)); ensureJac("d(A*p)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(A*p)/dp", v, e.jacobian(p.leaf), p); }
template <class A> void jParts() { In<A> a("A"); { const auto e = a.leaf.rotation(); ensureJac("d(rotation)/dA", view(eval(e)), e.jacobian(a.leaf), a); } { const auto e = a.leaf.translation(); ensureJac("d(translation)/dA", view(eval(e)), e.jacobian(a.leaf), a); } }
template <class A> void jPartsOfExpr() { In<A> a("A"); In<A> b("B"); { const auto e = (a.leaf * b.leaf).rotation(); const auto v = view(eval(e)); ensureJac("d(rotation(A*B))/dA", v, e.jacobian(a.leaf), a); ensureJac("d(rotation(A*B))/dB", v, e.jacobian(b.leaf), b); } { const auto e = (a.leaf * b.leaf).translation(); const auto v = view(eval(e)); ensureJac("d(translation(A*B))/dA", v, e.jacobian(a.leaf), a); ensureJac("d(translation(A*B))/dB", v, e.jacobian(b.leaf), b); } }
template <class A> void jInvAct() { In<A> a("A"); In<Translationd> p("p"); const auto e = inverse(a.leaf) * p.leaf; const auto v = view(eval(e)); ensureJac("d(inv(A)*p)/dA", v, e.jacobian(a.leaf), a); ensureJac("d(inv(A)*p)/dp", v, e.jacobian(p.leaf), p); }
template <class To, class A> void jConvert() { In<A> a("A"); notIdentity(a); const Convert<To, const A &> e{a.leaf}; ensureJac("d(convert)/dA", view(eval(e)), e.jacobian(a.leaf), a); }
template <class A> void jSelf() { In<A> a("A"); const auto e = a.leaf * a.leaf; const auto v = view(eval(e)); ensureJac("d(A*A)/dA", v, e.jacobian(a.leaf), a); }
template <class T, class R> void jRigidRot() { In<T> a("A"); In<R> b("B"); In<Translationd> p("p"); const auto e = a.leaf.rotation() * (b.leaf * p.leaf) + a.leaf.translation(); const auto v = view(eval(e)); ensureJac("/dA", v, e.jacobian(a.leaf), a); ensureJac("/dB", v, e.jacobian(b.leaf), b); ensureJac("/dp", v, e.jacobian(p.leaf), p); }
}
H(G05_compose_rigid_MM, jCompose<TM, TM>())
H(G05_compose_rigid_MQ, jCompose<TM, TQ>())
H(G05_inverse_rigid_M, jInverse<TM>())
H(G05_act_rigid_M, jAct<TM>())
H(G05_invact_rigid_M, jInvAct<TM>())
H(G05_self_rigid_M, jSelf<TM>())
H(G05_compose_rigid_QM, jCompose<TQ, TM>())
H(G05_compose_rigid_QQ, jCompose<TQ, TQ>())
H(G05_inverse_rigid_Q, jInverse<TQ>())
H(G05_act_rigid_Q, jAct<TQ>())
H(G05_invact_rigid_Q, jInvAct<TQ>())
H(G05_self_rigid_Q, jSelf<TQ>())
