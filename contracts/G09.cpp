// G09: chain rule in every differentiation mode, for trees of opaque operations (one node over arbitrary children, which is
// the induction step, then deeper trees).
// SCOPE: internal
#include "opaque_modes.hpp"
using namespace vc; using namespace opq;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>;
template <class X, class F> void one(F f) { In<X> x("x"); allModes(f(x.leaf), f(leafSp(col(x.leaf), 0)), x.leaf); }
template <class X, class Y, class F> void two(F f) { In<X> x("x"); In<Y> y("y"); allModes(f(x.leaf, y.leaf), f(leafSp(col(x.leaf), 0), leafSp(col(y.leaf), 1)), x.leaf, y.leaf); }
template <class X, class Y, class Z, class F> void three(F f) { In<X> x("x"); In<Y> y("y"); In<Z> z("z"); allModes(f(x.leaf, y.leaf, z.leaf), f(leafSp(col(x.leaf), 0), leafSp(col(y.leaf), 1), leafSp(col(z.leaf), 2)), x.leaf, y.leaf, z.leaf); }
}
#define T1(n, X, ...) H(G09_##n, one<X>([](const auto &x) { return __VA_ARGS__; }))
#define T2(n, X, Y, ...) H(G09_##n, two<X, Y>([](const auto &x, const auto &y) { return __VA_ARGS__; }))
#define T3(n, X, Y, Z, ...) H(G09_##n, three<X, Y, Z>([](const auto &x, const auto &y, const auto &z) { return __VA_ARGS__; }))
// one unary node, all dimension changes
T1(u_33, TR, v1(x))
T1(u_13, SD, v1(x))
T1(u_31, TR, s1(x))
T1(u_36, TR, t1(x))
T1(u_63, TW, v1(x))
T1(u_11, SD, s1(x))
T1(u_66, TW, t1(x))
T1(u_16, SD, t1(x))
T1(u_61, TW, s1(x))
// chains
T1(uu, TR, v1(w1(x)))
T1(uu_dim, TR, s1(t1(x)))
T1(uuu, SD, t1(v1(s1(x))))
// one binary node over leaves: different types, same type, same object
T2(b_xy, TR, RR, v2(x, y))
T2(b_xy_same, TR, TR, v2(x, y))
T1(b_xx, TR, v2(x, x))
T2(b_sv, SD, TR, v2(x, y))
T2(b_vs, TR, SD, s2(x, y))
T2(b_tv, TW, TR, t2(x, y))
T2(b_vt, TR, TW, v2(x, y))
// one binary node over opaque children: target in the left child, the right child, both, neither
T2(b_uu, TR, RR, v2(v1(x), r1(y)))
T2(b_uu_same, TR, TR, v2(v1(x), w1(y)))
T1(b_uu_xx, TR, v2(v1(x), w1(x)))
T2(b_xu, TR, RR, v2(x, v1(y)))
T2(b_ux, TR, RR, v2(v1(x), y))
T1(b_ux_xx, TR, v2(v1(x), x))
T1(b_xu_xx, TR, v2(x, v1(x)))
T2(b_ux_same, TR, TR, v2(v1(x), y))
T2(b_dims, TW, SD, t2(s1(x), v1(y)))
