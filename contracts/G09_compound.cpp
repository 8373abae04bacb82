// G09: the Jacobian of a compound is the vertical stack of its elements' Jacobians, in declaration order, with zero rows for
// elements that do not depend on the leaf (forward and run-time forward modes, which are the ones that support compounds).
// SCOPE: internal
#include "compounds.hpp"
#include "opaque_modes.hpp"
using namespace vc; using namespace opq;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>;
inline int rows(const Sp &s) { return s.v.r; }
template <class A, class B> auto pair_(A &&a, B &&b) { return cmp::Pair<internal::arg_t<A>, internal::arg_t<B>>{std::forward<A>(a), std::forward<B>(b)}; }
template <class A, class B, class C> auto triple_(A &&a, B &&b, C &&c) { return cmp::Triple<internal::arg_t<A>, internal::arg_t<B>, internal::arg_t<C>>{std::forward<A>(a), std::forward<B>(b), std::forward<C>(c)}; }
template <class JT> void stacked(const char *l, const JT &J, const Sp *s, int n, int slot, int cols) {
    Ctx c(l); int total = 0; for (int k = 0; k < n; ++k) total += s[k].v.r;
    vc_ensure("shape", J.rows() == total && J.cols() == cols); if (J.rows() != total || J.cols() != cols) return;
    for (int k = 0, r = 0; k < n; ++k) { Ctx e(IX[k]); for (int i = 0; i < s[k].v.r; ++i, ++r) { Ctx d(IX[i]); for (int j = 0; j < cols; ++j) vc_ensure_eq(IX[j], J.coeff(r, j), s[k].has[slot] ? s[k].J[slot](i, j) : 0.0); } }
}
template <std::size_t... K, class V> void values(std::index_sequence<K...>, const V &v, const Sp *s) { (valIs(v.template get<K>(), s[K]), ...); }
template <std::size_t... K, class... X, class T> void tupleIs2(std::index_sequence<K...>, const T &t, const Sp *s, int n, const X &... x) { (stacked(LN[K], std::get<K + 1>(t), s, n, K, dimOf(x)), ...); }
template <int N, class E, class... X> void checkAll(const E &e, const Sp *s, const X &... x) {
    const std::make_index_sequence<N> V{}; const std::index_sequence_for<X...> I{};
    { Ctx c("auto"); int k = 0; ((stacked(LN[k], e.jacobian(x), s, N, k, dimOf(x)), ++k), ...); auto t = e.evalWithJacobians(x...); values(V, std::get<0>(t), s); tupleIs2(I, t, s, N, x...); values(V, eval(e), s); }
    { Ctx c("forward"); auto t = internal::evaluateWithJacobians(e, x...); values(V, std::get<0>(t), s); tupleIs2(I, t, s, N, x...); }
    { Ctx c("dynamic"); auto t = internal::evaluateWithDynamicJacobians(e, x...); values(V, std::get<0>(t), s); tupleIs2(I, t, s, N, x...); }
}
// f and g (and h) build the elements from the leaves
template <class X, class Y, class F, class G> void pairOf(F f, G g) { In<X> x("x"); In<Y> y("y"); Sp a = leafSp(col(x.leaf), 0), b = leafSp(col(y.leaf), 1); const Sp s[2] = {f(a, b), g(a, b)}; const auto e = pair_(f(x.leaf, y.leaf), g(x.leaf, y.leaf)); checkAll<2>(e, s, x.leaf, y.leaf); }
template <class X, class Y, class F, class G, class K> void tripleOf(F f, G g, K h) { In<X> x("x"); In<Y> y("y"); Sp a = leafSp(col(x.leaf), 0), b = leafSp(col(y.leaf), 1); const Sp s[3] = {f(a, b), g(a, b), h(a, b)}; const auto e = triple_(f(x.leaf, y.leaf), g(x.leaf, y.leaf), h(x.leaf, y.leaf)); checkAll<3>(e, s, x.leaf, y.leaf); }
// an expression reading only its first or second argument
#define F(...) [](const auto &x, const auto &y) -> decltype(auto) { return (__VA_ARGS__); }
}
#define P2(n, X, Y, f, g) H(G09_##n, pairOf<X, Y>(f, g))
#define P3(n, X, Y, f, g, h) H(G09_##n, tripleOf<X, Y>(f, g, h))
P2(c_first, TR, RR, F(v1(x)), F(w1(y)))
P2(c_second, TR, RR, F(v1(y)), F(w1(x)))
P2(c_sizes, SD, TR, F(t1(y)), F(s1(x)))
P2(c_sizes2, SD, TW, F(s1(y)), F(t1(v1(x))))
P2(c_both, TR, RR, F(v2(x, y)), F(r2(y, x)))
P2(c_same, TR, TR, F(v1(x)), F(w1(y)))
P2(c_only1, TR, TR, F(v1(x)), F(w1(x)))
P2(c_binary, TR, SD, F(s2(x, y)), F(v1(x)))
P3(c3_middle, TR, SD, F(v1(x)), F(s1(y)), F(w1(x)))
P3(c3_last, TR, SD, F(s1(x)), F(v1(x)), F(t1(y)))
P3(c3_first, TW, TR, F(s1(y)), F(t1(x)), F(v1(x)))
P3(c3_all, TR, RR, F(v2(x, y)), F(s2(y, x)), F(w2(x, x)))
P2(c_leaves, TR, RR, F(x), F(y))
P2(c_leaves_same, TR, TR, F(y), F(x))
P2(c_leaf_and_expr, TR, SD, F(y), F(s2(x, y)))
P3(c3_leaves, TR, SD, F(x), F(y), F(x))
