// G01: building, reading and assigning the rotation and translation parts of rigid transforms.
#include "wvc.hpp"
using namespace vc;
namespace {
template <class T> void read() {
    In<T> x("X"); ensureEq("rotation()", view(eval(x.leaf.rotation())), x.R); ensureEq("translation()", view(eval(x.leaf.translation())), x.t);
    const T &c = x.leaf; ensureEq("const rotation()", view(eval(c.rotation())), x.R); ensureEq("const translation()", view(eval(c.translation())), x.t);
    ensureEq("rotationBlock()", view(x.leaf.rotationBlock()), x.R); ensureEq("translationBlock()", view(x.leaf.translationBlock()), x.t);
    ensureEq("translation of expression", view(eval((x.leaf * x.leaf).translation())), mul(x.R, x.t) + x.t);
    ensureEq("translation of temporary", view(eval(T{x.leaf}.translation())), x.t);
}
template <class T, class R> void build() { In<R> r("R"); In<Translationd> t("t"); const T x{r.leaf, t.leaf}; ensureEq("T{R,t}", view(x), Rigid{r.val(), t.val()}); valid(x); }
template <class T, class R> void buildExpr() { In<R> r("R"); In<Translationd> t("t"); const T x{inverse(r.leaf), r.leaf * t.leaf}; ensureEq("T{inv(R),R*t}", view(x), Rigid{tr(r.val()), mul(r.val(), t.val())}); valid(x); }
template <class T, class R> void assign() {
    In<T> x("X"); In<R> r("R"); In<Translationd> t("t");
    { T y{x.leaf}; y.rotation() = r.leaf; ensureEq("rotation()=R", view(y), Rigid{r.val(), x.t}); valid(y); y.translation() = t.leaf; ensureEq("translation()=t", view(y), Rigid{r.val(), t.val()}); valid(y); }
    { T y{x.leaf}; y.translation() = t.leaf + t.leaf; ensureEq("translation()=t+t", view(y), Rigid{x.R, 2.0 * t.val()}); y.rotation() = inverse(r.leaf); ensureEq("rotation()=inv(R)", view(y), Rigid{tr(r.val()), 2.0 * t.val()}); }
    ensureEq("operands unchanged", view(x.leaf), x.val()); ensureEq("R unchanged", view(r.leaf), r.val());
}
template <class T> void buildEigen() { In<RM> r("R"); In<Translationd> t("t"); const T x{eig(r.val()), eig(t.val())}; ensureEq("T{Matrix3,Vector3}", view(x), Rigid{r.val(), t.val()}); valid(x); }
}
H(G01_read_M, read<TM>()) H(G01_read_Q, read<TQ>())
H(G01_build_M_M, build<TM, RM>()) H(G01_build_M_Q, build<TM, RQ>()) H(G01_build_M_A, build<TM, RA>()) H(G01_build_Q_M, build<TQ, RM>()) H(G01_build_Q_Q, build<TQ, RQ>()) H(G01_build_Q_A, build<TQ, RA>())
H(G01_buildExpr_M_M, buildExpr<TM, RM>()) H(G01_buildExpr_M_Q, buildExpr<TM, RQ>()) H(G01_buildExpr_Q_M, buildExpr<TQ, RM>()) H(G01_buildExpr_Q_Q, buildExpr<TQ, RQ>())
H(G01_assign_M_M, assign<TM, RM>()) H(G01_assign_M_Q, assign<TM, RQ>()) H(G01_assign_M_A, assign<TM, RA>()) H(G01_assign_Q_M, assign<TQ, RM>()) H(G01_assign_Q_Q, assign<TQ, RQ>()) H(G01_assign_Q_A, assign<TQ, RA>())
H(G01_buildEigen_M, buildEigen<TM>()) H(G01_buildEigen_Q, buildEigen<TQ>())
