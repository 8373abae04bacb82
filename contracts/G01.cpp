// G01 group operations on values: composition, inversion, rotation / transformation of vectors; every representation.
#include "wvc.hpp"
using namespace vc;
namespace {
template <class A, class B> void composeV() { In<A> a("A"); In<B> b("B"); const auto r = eval(a.leaf * b.leaf); ensureEq("A*B", view(r), compose(a.val(), b.val())); valid(r); }
template <class A> void inverseV() { In<A> a("A"); const auto r = eval(inverse(a.leaf)); ensureEq("inverse", view(r), inv(a.val())); valid(r); }
template <class A> void actV() { In<A> a("A"); In<Translationd> p("p"); const auto r = eval(a.leaf * p.leaf); ensureEq("A*p", view(r), act(a.val(), p.val())); }
template <class A> void nested() {  // operations nested in one expression
    In<A> a("A"); In<Translationd> p("p"); ensureEq("inv(A)*p", view(eval(inverse(a.leaf) * p.leaf)), act(inv(a.val()), p.val()));
    ensureEq("inv(A)*(A*p)", view(eval(inverse(a.leaf) * (a.leaf * p.leaf))), p.val()); ensureEq("(inv(A)*A)*p", view(eval((inverse(a.leaf) * a.leaf) * p.leaf)), p.val());
}

}
H(G01_compose_MM, composeV<RM, RM>()) H(G01_compose_MQ, composeV<RM, RQ>()) H(G01_compose_MA, composeV<RM, RA>())
H(G01_compose_QM, composeV<RQ, RM>()) H(G01_compose_QQ, composeV<RQ, RQ>()) H(G01_compose_QA, composeV<RQ, RA>())
H(G01_compose_AM, composeV<RA, RM>()) H(G01_compose_AQ, composeV<RA, RQ>()) H(G01_compose_AA, composeV<RA, RA>())
H(G01_compose_rigid_MM, composeV<TM, TM>()) H(G01_compose_rigid_MQ, composeV<TM, TQ>()) H(G01_compose_rigid_QM, composeV<TQ, TM>()) H(G01_compose_rigid_QQ, composeV<TQ, TQ>())
H(G01_inverse_M, inverseV<RM>()) H(G01_inverse_Q, inverseV<RQ>()) H(G01_inverse_A, inverseV<RA>()) H(G01_inverse_rigid_M, inverseV<TM>()) H(G01_inverse_rigid_Q, inverseV<TQ>())
H(G01_rotate_M, actV<RM>()) H(G01_rotate_Q, actV<RQ>()) H(G01_rotate_A, actV<RA>()) H(G01_transform_M, actV<TM>()) H(G01_transform_Q, actV<TQ>())
H(G01_nested_M, nested<RM>()) H(G01_nested_Q, nested<RQ>()) H(G01_nested_A, nested<RA>()) H(G01_nested_rigid_M, nested<TM>()) H(G01_nested_rigid_Q, nested<TQ>())
