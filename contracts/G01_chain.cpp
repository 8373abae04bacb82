// G01: chains of operations with mixed representations.
#include "wvc.hpp"
using namespace vc;
namespace {
template <class A, class B> void chainL() { In<A> a("A"); In<B> b("B"); In<Translationd> p("p"); ensureEq("(A*B)*p", view(eval((a.leaf * b.leaf) * p.leaf)), act(a.val(), act(b.val(), p.val()))); }
template <class A, class B> void chainR() { In<A> a("A"); In<B> b("B"); In<Translationd> p("p"); ensureEq("A*(B*p)", view(eval(a.leaf * (b.leaf * p.leaf))), act(a.val(), act(b.val(), p.val()))); }
template <class A, class B> void chainI() { In<A> a("A"); In<B> b("B"); const auto r = eval(inverse(a.leaf) * b.leaf); ensureEq("inv(A)*B", view(r), compose(inv(a.val()), b.val())); }
template <class A, class B, class C> void three1() { In<A> a("A"); In<B> b("B"); In<C> c("C"); ensureEq("A*inv(B)*C", view(eval(a.leaf * inverse(b.leaf) * c.leaf)), compose(compose(a.val(), inv(b.val())), c.val())); }
template <class A, class B, class C> void three2() { In<A> a("A"); In<B> b("B"); In<C> c("C"); ensureEq("inv(A*B)*C", view(eval(inverse(a.leaf * b.leaf) * c.leaf)), compose(inv(compose(a.val(), b.val())), c.val())); }
}
H(G01_chainL_MM, chainL<RM, RM>()) H(G01_chainR_MM, chainR<RM, RM>()) H(G01_chainI_MM, chainI<RM, RM>())
H(G01_chainL_MQ, chainL<RM, RQ>()) H(G01_chainR_MQ, chainR<RM, RQ>()) H(G01_chainI_MQ, chainI<RM, RQ>())
H(G01_chainL_MA, chainL<RM, RA>()) H(G01_chainR_MA, chainR<RM, RA>()) H(G01_chainI_MA, chainI<RM, RA>())
H(G01_chainL_QM, chainL<RQ, RM>()) H(G01_chainR_QM, chainR<RQ, RM>()) H(G01_chainI_QM, chainI<RQ, RM>())
H(G01_chainL_QQ, chainL<RQ, RQ>()) H(G01_chainR_QQ, chainR<RQ, RQ>()) H(G01_chainI_QQ, chainI<RQ, RQ>())
H(G01_chainL_QA, chainL<RQ, RA>()) H(G01_chainR_QA, chainR<RQ, RA>()) H(G01_chainI_QA, chainI<RQ, RA>())
H(G01_chainL_AM, chainL<RA, RM>()) H(G01_chainR_AM, chainR<RA, RM>()) H(G01_chainI_AM, chainI<RA, RM>())
H(G01_chainL_AQ, chainL<RA, RQ>()) H(G01_chainR_AQ, chainR<RA, RQ>()) H(G01_chainI_AQ, chainI<RA, RQ>())
H(G01_chainL_AA, chainL<RA, RA>()) H(G01_chainR_AA, chainR<RA, RA>()) H(G01_chainI_AA, chainI<RA, RA>())
H(G01_chainL_rigid_MM, chainL<TM, TM>()) H(G01_chainR_rigid_MM, chainR<TM, TM>()) H(G01_chainI_rigid_MM, chainI<TM, TM>())
H(G01_chainL_rigid_MQ, chainL<TM, TQ>()) H(G01_chainR_rigid_MQ, chainR<TM, TQ>()) H(G01_chainI_rigid_MQ, chainI<TM, TQ>())
H(G01_chainL_rigid_QM, chainL<TQ, TM>()) H(G01_chainR_rigid_QM, chainR<TQ, TM>()) H(G01_chainI_rigid_QM, chainI<TQ, TM>())
H(G01_chainL_rigid_QQ, chainL<TQ, TQ>()) H(G01_chainR_rigid_QQ, chainR<TQ, TQ>()) H(G01_chainI_rigid_QQ, chainI<TQ, TQ>())
H(G01_three1_MQM, three1<RM, RQ, RM>()) H(G01_three2_MQM, three2<RM, RQ, RM>()) H(G01_three1_QMQ, three1<RQ, RM, RQ>()) H(G01_three2_QMQ, three2<RQ, RM, RQ>())
H(G01_three1_rigid_MMM, three1<TM, TM, TM>()) H(G01_three2_rigid_MMM, three2<TM, TM, TM>()) H(G01_three1_rigid_QQQ, three1<TQ, TQ, TQ>()) H(G01_three2_rigid_QQQ, three2<TQ, TQ, TQ>())
