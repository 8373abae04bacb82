// G04: plus and minus on vectors, points and compounds (element by element, in declaration order).
#include "compounds.hpp"
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace {
template <class V> void vec_() { Vin<V> a("a"), b("b"); { Ctx c("a + (b - a)"); valueIs(eval(a.leaf + (b.leaf - a.leaf)), b.x); } { Ctx c("(a + b) - a"); valueIs(eval((a.leaf + b.leaf) - a.leaf), b.x); } { Ctx c("(a - b) + b"); valueIs(eval((a.leaf - b.leaf) + b.leaf), a.x); } { Ctx c("a - (a - b)"); valueIs(eval(a.leaf - (a.leaf - b.leaf)), b.x); } }
void point_() { Vin<PT> p("p"), q("q"); Vin<TR> v("v"); { Ctx c("q + (p - q)"); valueIs(eval(q.leaf + (p.leaf - q.leaf)), p.x); } { Ctx c("(p - q) + q"); valueIs(eval((p.leaf - q.leaf) + q.leaf), p.x); } { Ctx c("(p + v) - p"); valueIs(eval((p.leaf + v.leaf) - p.leaf), v.x); } { Ctx c("(p - v) - p"); valueIs(eval((p.leaf - v.leaf) - p.leaf), -1 * v.x); } }
// compounds of vectors
template <std::size_t... K, class C> void elems(std::index_sequence<K...>, const char *l, const C &c, const Arr *x) { Ctx d(l); ([&] { Ctx e(IX[K]); valueIs(c.template get<K>(), x[K]); }(), ...); }
template <std::size_t N, class C> void is(const char *l, const C &c, const Arr *x) { elems(std::make_index_sequence<N>{}, l, c, x); }
template <class T, std::size_t N> void vecCompound(const T &a, const T &b, const Arr *x, const Arr *y) {
    Arr sum[N], dif[N]; for (std::size_t k = 0; k < N; ++k) { sum[k] = x[k] + y[k]; dif[k] = x[k] - y[k]; }
    is<N>("a + b", eval(a + b), sum); is<N>("a - b", eval(a - b), dif); is<N>("rvalues", eval(T{a} + T{b}), sum); is<N>("rvalue -", eval(T{a} - T{b}), dif);
    is<N>("l,r", eval(a - T{b}), dif); is<N>("r,l", eval(T{a} - b), dif); is<N>("l,r +", eval(a + T{b}), sum); is<N>("r,l +", eval(T{a} + b), sum);
    { const auto e = a - b; is<N>("stored", eval(e), dif); is<N>("stored method", e.eval(), dif); }
    is<N>("b + (a - b)", eval(b + (a - b)), x); is<N>("(a + b) - a", eval((a + b) - a), y);
    { const T c{a - b}; is<N>("construct", c, dif); } { T c{a}; c = a + b; is<N>("assign", c, sum); } { T c{a}; c = c - b; is<N>("self assign", c, dif); }
    is<N>("a unchanged", a, x); is<N>("b unchanged", b, y);
}
template <class A, class B> void pairVec() { Vin<A> a0("a"), b0("b"); Vin<B> a1("c"), b1("d"); using T = cmp::Pair<A, B>; const T a{a0.leaf, a1.leaf}, b{b0.leaf, b1.leaf}; const Arr x[2] = {a0.x, a1.x}, y[2] = {b0.x, b1.x}; vecCompound<T, 2>(a, b, x, y); }
template <class A, class B, class C> void tripleVec() { Vin<A> a0("a"), b0("b"); Vin<B> a1("c"), b1("d"); Vin<C> a2("e"), b2("f"); using T = cmp::Triple<A, B, C>; const T a{a0.leaf, a1.leaf, a2.leaf}, b{b0.leaf, b1.leaf, b2.leaf}; const Arr x[3] = {a0.x, a1.x, a2.x}, y[3] = {b0.x, b1.x, b2.x}; vecCompound<T, 3>(a, b, x, y); }
// elements given as expressions
void exprElems() { Vin<TR> v("v"), w("w"); Vin<SD> s("s"); using T = cmp::Pair<TR, SD>; const T b{v.leaf, s.leaf}; const Arr dif[2] = {w.x - v.x - v.x, one(dot(v.x, w.x) - s.x[0])}; is<2>("expression elements -", eval(internal::makeCompound<cmp::Pair>(w.leaf - v.leaf, dot(v.leaf, w.leaf)) - b), dif); const Arr sum[2] = {v.x + 2.0 * w.x, one(s.x[0] + s.x[0] * s.x[0])}; is<2>("+ expression elements", eval(b + internal::makeCompound<cmp::Pair>(2.0 * w.leaf, s.leaf * s.leaf)), sum); }
// compounds with a rotation or a rigid transform, a point and a vector
template <class S, class X, class RT> void stateIs(const char *l, const S &s, const X &rot, V3 p, V3 v) { Ctx c(l); ensureEq("rotation", view(s.template get<0>()), rot); ensureEq("point", view(s.template get<1>()), p); ensureEq("vector", view(s.template get<2>()), v); }
template <class R> void statePlus() {
    In<R> r("R"); Vin<PT> p("p"); Vin<TR> v("v"), dp("dp"), dv("dv"); PhiIn f("P"); using S = cmp::State<R, Pointd, Translationd>; using D = cmp::Triple<RelativeRotationd, Translationd, Translationd>;
    const RelativeRotationd d{eig(f.phi)}; const S s{r.leaf, p.leaf, v.leaf}; const D delta{d, dp.leaf, dv.leaf};
    const M3 want = view(R{eval(r.leaf + d)}); const V3 P = v3(p.x[0] + dp.x[0], p.x[1] + dp.x[1], p.x[2] + dp.x[2]), W = v3(v.x[0] + dv.x[0], v.x[1] + dv.x[1], v.x[2] + dv.x[2]);
    const auto chk = [&](const char *l, const auto &y) { Ctx c(l); ensureEq("rotation", view(y.template get<0>()), want); ensureEq("point", view(y.template get<1>()), P); ensureEq("vector", view(y.template get<2>()), W); };
    chk("s + d", eval(s + delta)); chk("rvalues", eval(S{s} + D{delta})); { S y{s}; y = s + delta; chk("assign", y); } { S y{s}; y = y + delta; chk("self assign", y); } { const S y{s + delta}; chk("construct", y); } { const auto e = s + delta; chk("stored", eval(e)); }
    chk("expression elements", eval(s + internal::makeCompound<cmp::Triple>(-(-d), dp.leaf + (dv.leaf - dv.leaf), 1.0 * dv.leaf)));
}
template <class R, class Q> void stateMinus() {
    In<R> a("A"); PhiIn f("P", true); const Q b{RM{eig(mul(tr(f.R), a.val()))}}; Vin<PT> p("p"), q("q"); Vin<TR> v("v"), w("w"); using S = cmp::State<R, Pointd, Translationd>; using T = cmp::State<Q, Pointd, Translationd>;
    const S s{a.leaf, p.leaf, v.leaf}; const T t{b, q.leaf, w.leaf}; const V3 want = view(eval(a.leaf - b)); const V3 P = v3(p.x[0] - q.x[0], p.x[1] - q.x[1], p.x[2] - q.x[2]), W = v3(v.x[0] - w.x[0], v.x[1] - w.x[1], v.x[2] - w.x[2]);
    const auto chk = [&](const char *l, const auto &y) { Ctx c(l); ensureEq("rotation", view(y.template get<0>()), want); ensureEq("point", view(y.template get<1>()), P); ensureEq("vector", view(y.template get<2>()), W); };
    chk("s - t", eval(s - t)); chk("rvalues", eval(S{s} - T{t})); { const auto e = s - t; chk("stored", eval(e)); } { cmp::Triple<RelativeRotationd, Translationd, Translationd> y{s - t}; chk("construct", y); y = s - t; chk("assign", y); }
}
template <class T> void rigidPlus() {
    In<T> x("X"); V3 u = v3(vc_var_i("v", 0), vc_var_i("v", 1), vc_var_i("v", 2)); const Twistd d{twistVec(v3(0, 0, 0), u)}; Vin<SD> s("s"), e("e"); Vin<PT> p("p"); Vin<TR> dp("dp"); using S = cmp::State<T, Pointd, Scalar<double>>; using D = cmp::Triple<Twistd, Translationd, Scalar<double>>; const S a{x.leaf, p.leaf, s.leaf}; const D delta{d, dp.leaf, e.leaf};
    const auto y = eval(a + delta); ensureEq("transform", view(y.template get<0>()), Rigid{x.val().R, x.val().t + u}); valueIs(y.template get<1>(), p.x + dp.x); valueIs(y.template get<2>(), s.x + e.x);
    const T x2{TM{eig(Rigid{x.val().R, x.val().t + u})}}; const S b{x2, p.leaf, e.leaf}; const auto z = eval(b - a); ensureEq("transform", view(z.template get<0>()), Twist6{v3(0, 0, 0), u}); valueIs(z.template get<1>(), p.x - p.x); valueIs(z.template get<2>(), e.x - s.x);
}
}
H(G04_vec_T, vec_<TR>()) H(G04_vec_R, vec_<RR>()) H(G04_vec_W, vec_<TW>()) H(G04_vec_S, vec_<SD>())
H(G04_point, point_())
H(G04_pair_TT, pairVec<TR, TR>()) H(G04_pair_TR, pairVec<TR, RR>()) H(G04_pair_SW, pairVec<SD, TW>()) H(G04_pair_SS, pairVec<SD, SD>())
H(G04_triple_TTT, tripleVec<TR, TR, TR>()) H(G04_triple_WSR, tripleVec<TW, SD, RR>())
H(G04_expr, exprElems())
H(G04_state_plus_M, statePlus<RM>()) H(G04_state_plus_Q, statePlus<RQ>())
H(G04_state_minus_MM, stateMinus<RM, RM>()) H(G04_state_minus_QM, stateMinus<RQ, RM>())
H(G04_state_rigid_M, rigidPlus<TM>())
