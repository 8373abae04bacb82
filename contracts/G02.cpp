// G02: conversions between rotation representations: construction, assignment, evaluation, from leaves and expressions.
#include "wvc.hpp"
using namespace vc;
namespace {
template <class To, class From> void construct() { In<From> a("A"); const To r{a.leaf}; ensureEq("To{from}", view(r), a.val()); valid(r); ensureEq("operand unchanged", view(a.leaf), a.val()); }
template <class To, class From> void assignV() { In<From> a("A"); In<To> b("B"); To r{b.leaf}; r = a.leaf; ensureEq("to = from", view(r), a.val()); valid(r); }
template <class To, class From> void evalTo() { In<From> a("A"); const auto r = internal::evaluateTo<To>(a.leaf); ensureEq("evaluateTo", view(r), a.val()); valid(r); }
template <class To, class From> void fromInverse() { In<From> a("A"); const To r{inverse(a.leaf)}; ensureEq("To{inverse(from)}", view(r), inv(a.val())); valid(r); To s{r}; s = inverse(inverse(a.leaf)); ensureEq("to = inverse(inverse(from))", view(s), a.val()); valid(s); }
template <class To, class From> void fromCompose() { In<From> a("A"); In<From> b("B"); const To r{a.leaf * b.leaf}; ensureEq("To{A*B}", view(r), compose(a.val(), b.val())); valid(r); }
}
H(G02_construct_M_M, construct<RM, RM>())
H(G02_assignV_M_M, assignV<RM, RM>())
H(G02_evalTo_M_M, evalTo<RM, RM>())
H(G02_fromInverse_M_M, fromInverse<RM, RM>())
H(G02_fromCompose_M_M, fromCompose<RM, RM>())
H(G02_construct_M_Q, construct<RM, RQ>())
H(G02_assignV_M_Q, assignV<RM, RQ>())
H(G02_evalTo_M_Q, evalTo<RM, RQ>())
H(G02_fromInverse_M_Q, fromInverse<RM, RQ>())
H(G02_fromCompose_M_Q, fromCompose<RM, RQ>())
H(G02_construct_M_A, construct<RM, RA>())
H(G02_assignV_M_A, assignV<RM, RA>())
H(G02_evalTo_M_A, evalTo<RM, RA>())
H(G02_fromInverse_M_A, fromInverse<RM, RA>())
H(G02_fromCompose_M_A, fromCompose<RM, RA>())
H(G02_construct_Q_M, construct<RQ, RM>())
H(G02_assignV_Q_M, assignV<RQ, RM>())
H(G02_evalTo_Q_M, evalTo<RQ, RM>())
H(G02_fromInverse_Q_M, fromInverse<RQ, RM>())
H(G02_fromCompose_Q_M, fromCompose<RQ, RM>())
H(G02_construct_Q_Q, construct<RQ, RQ>())
H(G02_assignV_Q_Q, assignV<RQ, RQ>())
H(G02_evalTo_Q_Q, evalTo<RQ, RQ>())
H(G02_fromInverse_Q_Q, fromInverse<RQ, RQ>())
H(G02_fromCompose_Q_Q, fromCompose<RQ, RQ>())
H(G02_construct_Q_A, construct<RQ, RA>())
H(G02_assignV_Q_A, assignV<RQ, RA>())
H(G02_evalTo_Q_A, evalTo<RQ, RA>())
H(G02_fromInverse_Q_A, fromInverse<RQ, RA>())
H(G02_construct_A_M, construct<RA, RM>())
H(G02_assignV_A_M, assignV<RA, RM>())
H(G02_evalTo_A_M, evalTo<RA, RM>())
H(G02_fromInverse_A_M, fromInverse<RA, RM>())
H(G02_construct_A_Q, construct<RA, RQ>())
H(G02_assignV_A_Q, assignV<RA, RQ>())
H(G02_evalTo_A_Q, evalTo<RA, RQ>())
H(G02_fromInverse_A_Q, fromInverse<RA, RQ>())
H(G02_construct_A_A, construct<RA, RA>())
H(G02_assignV_A_A, assignV<RA, RA>())
H(G02_evalTo_A_A, evalTo<RA, RA>())
H(G02_fromInverse_A_A, fromInverse<RA, RA>())
H(G02_construct_rigid_M_M, construct<TM, TM>())
H(G02_assignV_rigid_M_M, assignV<TM, TM>())
H(G02_evalTo_rigid_M_M, evalTo<TM, TM>())
H(G02_fromInverse_rigid_M_M, fromInverse<TM, TM>())
H(G02_fromCompose_rigid_M_M, fromCompose<TM, TM>())
H(G02_construct_rigid_M_Q, construct<TM, TQ>())
H(G02_assignV_rigid_M_Q, assignV<TM, TQ>())
H(G02_evalTo_rigid_M_Q, evalTo<TM, TQ>())
H(G02_fromInverse_rigid_M_Q, fromInverse<TM, TQ>())
H(G02_fromCompose_rigid_M_Q, fromCompose<TM, TQ>())
H(G02_construct_rigid_Q_M, construct<TQ, TM>())
H(G02_assignV_rigid_Q_M, assignV<TQ, TM>())
H(G02_evalTo_rigid_Q_M, evalTo<TQ, TM>())
H(G02_fromInverse_rigid_Q_M, fromInverse<TQ, TM>())
H(G02_fromCompose_rigid_Q_M, fromCompose<TQ, TM>())
H(G02_construct_rigid_Q_Q, construct<TQ, TQ>())
H(G02_assignV_rigid_Q_Q, assignV<TQ, TQ>())
H(G02_evalTo_rigid_Q_Q, evalTo<TQ, TQ>())
H(G02_fromInverse_rigid_Q_Q, fromInverse<TQ, TQ>())
H(G02_fromCompose_rigid_Q_Q, fromCompose<TQ, TQ>())
