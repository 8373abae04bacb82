// G09: chain rule for deeper trees of opaque operations, repeated leaves and owned sub-expressions.
// SCOPE: internal
#include "opaque_modes.hpp"
using namespace vc; using namespace opq;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>;
template <class X, class F> void one(F f) { In<X> x("x"); allModes(f(x.leaf), f(leafSp(col(x.leaf), 0)), x.leaf); }
template <class X, class Y, class F> void two(F f) { In<X> x("x"); In<Y> y("y"); allModes(f(x.leaf, y.leaf), f(leafSp(col(x.leaf), 0), leafSp(col(y.leaf), 1)), x.leaf, y.leaf); }
template <class X, class Y, class Z, class F> void three(F f) { In<X> x("x"); In<Y> y("y"); In<Z> z("z"); allModes(f(x.leaf, y.leaf, z.leaf), f(leafSp(col(x.leaf), 0), leafSp(col(y.leaf), 1), leafSp(col(z.leaf), 2)), x.leaf, y.leaf, z.leaf); }
}
#define T1(n, X, ...) H(G09_##n, one<X>([](const auto &x) { return __VA_ARGS__; }))
#define T2(n, X, Y, ...) H(G09_##n, two<X, Y>([](const auto &x, const auto &y) { return __VA_ARGS__; }))
#define T3(n, X, Y, Z, ...) H(G09_##n, three<X, Y, Z>([](const auto &x, const auto &y, const auto &z) { return __VA_ARGS__; }))
T2(ub, TR, RR, w1(v2(x, y)))
T2(ub_u, TR, RR, t1(v2(v1(x), s1(y))))
T3(bb_left, TR, RR, TW, v2(w2(x, y), z))
T3(bb_right, TR, RR, TW, v2(x, w2(y, z)))
T3(bb_left_u, TR, RR, SD, v2(w2(x, y), s1(z)))
T2(bb_diamond, TR, RR, v2(w2(x, y), r2(y, x)))
T2(bb_diamond_same, TR, TR, v2(w2(x, y), r2(y, x)))
T2(bb_repeat, TR, TR, v2(w2(x, x), y))
T2(bb_repeat_u, TR, TR, v2(x, w2(v1(y), x)))
T3(bb_mixed, TR, TR, SD, s2(v2(x, z), w2(z, y)))
T3(ubu, TR, RR, SD, w1(v2(s2(x, y), v1(z))))
