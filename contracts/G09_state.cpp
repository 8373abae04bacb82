// G09: compounds of library operations (vectors, points, rotations, rigid transforms): the compound's value holds the element
// values and its Jacobian is the stack of the element Jacobians, in declaration order.
#include "compounds.hpp"
#include "vecops.hpp"
using namespace vc;
namespace {
// named tuple of element expressions; el(k) is the k-th element expression on its own
template <class V, std::size_t... K, class... E> void valuesAre(const char *l, std::index_sequence<K...>, const V &v, const E &... e) { Ctx c(l); ([&] { Ctx d(IX[K]); ensureEq("value", view(v.template get<K>()), view(eval(e))); }(), ...); }
template <class J, class JE> int rowsAre(const J &j, int r0, const JE &je) { vc_ensure("cols", j.cols() == je.cols()); for (int i = 0; i < je.rows(); ++i) for (int k = 0; k < je.cols(); ++k) { Ctx d(IX[i]); vc_ensure_eq(IX[k], j.coeff(r0 + i, k), je.coeff(i, k)); } return r0 + je.rows(); }
template <class J, class X, class... E> void stackIs(const char *l, const J &j, const X &x, const E &... e) { Ctx c(l); int total = 0; ((total += internal::evaluateJacobian(e, x).rows()), ...); vc_ensure("rows", j.rows() == total); if (j.rows() != total) return; int r = 0, k = 0; ((vc_push(IX[k++]), r = rowsAre(j, r, internal::evaluateJacobian(e, x)), vc_pop()), ...); }
template <template <class...> class C, class... E> struct All {
    template <class... X> static void check(const std::tuple<const X &...> &xs, const E &... e) {
        const auto s = internal::makeCompound<C>(e...); const std::index_sequence_for<E...> I{};
        valuesAre("value", I, eval(s), e...);
        std::apply([&](const auto &... x) {
            int k = 0; ((stackIs(IX[k], s.jacobian(x), x, e...), ++k), ...);
            { Ctx c("forward"); int k = 0; ((stackIs(IX[k], internal::evaluateJacobian(s, x), x, e...), ++k), ...); }
            { Ctx c("dynamic"); int k = 0; ((stackIs(IX[k], internal::evaluateDynamicJacobian(s, x), x, e...), ++k), ...); }
            { Ctx c("all"); const auto t = s.evalWithJacobians(x...); valuesAre("value", I, std::get<0>(t), e...); stackAll(std::index_sequence_for<X...>{}, t, xs, e...); }
        }, xs);
    }
    template <std::size_t... K, class T, class XS> static void stackAll(std::index_sequence<K...>, const T &t, const XS &xs, const E &... e) { (stackIs(IX[K], std::get<K + 1>(t), std::get<K>(xs), e...), ...); }
};
template <template <class...> class C, class... X, class... E> void compound(const std::tuple<const X &...> &xs, const E &... e) { All<C, E...>::check(xs, e...); }
}
#define ARGS(...) std::tie(__VA_ARGS__)
H(G09_state_M, { In<RM> R("R"), Q("Q"); In<Pointd> p("p"); In<Translationd> v("v"); const RM &r = R.leaf, &q = Q.leaf; const Pointd &P = p.leaf; const Translationd &V = v.leaf; compound<cmp::State>(std::tuple<const RM &, const RM &, const Pointd &, const Translationd &>(r, q, P, V), r * q, P + V, r * V); })
H(G09_state_Q, { In<RQ> R("R"); In<RM> Q("Q"); In<Pointd> p("p"); In<Translationd> v("v"); const RQ &r = R.leaf; const RM &q = Q.leaf; const Pointd &P = p.leaf; const Translationd &V = v.leaf; compound<cmp::State>(std::tuple<const RQ &, const RM &, const Pointd &, const Translationd &>(r, q, P, V), inverse(r), P + r * V, 2.0 * V - q * V); })
H(G09_state_T, { In<TM> T("T"); In<RM> Q("Q"); In<Pointd> p("p"); In<Translationd> v("v"); const TM &t = T.leaf; const RM &q = Q.leaf; const Pointd &P = p.leaf; const Translationd &V = v.leaf; compound<cmp::State>(std::tuple<const TM &, const RM &, const Pointd &, const Translationd &>(t, q, P, V), inverse(t), P + t * V, t.translation() + V); })
H(G09_state_leaves, { In<RM> R("R"); In<Pointd> p("p"); In<Translationd> v("v"); const RM &r = R.leaf; const Pointd &P = p.leaf; const Translationd &V = v.leaf; compound<cmp::State>(std::tuple<const RM &, const Pointd &, const Translationd &>(r, P, V), r, P, V); })
H(G09_lazy, { In<Translationd> v("v"), w("w"); In<RelativeRotationd> f("f"); In<Scalar<double>> s("s"); const Translationd &V = v.leaf, &W = w.leaf; const RelativeRotationd &F = f.leaf; const Scalar<double> &S = s.leaf; compound<cmp::Triple>(std::tuple<const Translationd &, const Translationd &, const RelativeRotationd &, const Scalar<double> &>(V, W, F, S), -(-(V - W)), S * (2.0 * F), dot(V, W + W) - S * S); })
H(G09_lazy2, { In<Twistd> x("x"), y("y"); In<Scalar<double>> s("s"); const Twistd &X = x.leaf, &Y = y.leaf; const Scalar<double> &S = s.leaf; compound<cmp::Pair>(std::tuple<const Twistd &, const Twistd &, const Scalar<double> &>(X, Y, S), S - S * S, X - (X + (-Y)) * 2.0); })
