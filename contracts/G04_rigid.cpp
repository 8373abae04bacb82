// G04: box-plus and box-minus of rigid transforms.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 32 * EPS;
inline void near(const char *l, const Rigid &a, const Rigid &b, double m) { Ctx c(l); ensureNear("rotation", a.R, b.R, TOL); ensureNear("translation", a.t, b.t, TOL * m); }
inline void nearTw(const char *l, const Twist6 &a, V3 w, V3 v, double th, double m) { Ctx c(l); ensureNear("rotation", a.w, w, TOL * th); ensureNear("translation", a.v, v, TOL * m); }
template <class T> T rig(const Rigid &X, const double *, T *) { return T{eig(X)}; }
inline TQ rig(const Rigid &X, const double *q, TQ *) { TQ x; x.rotationBlock().value() = Eigen::Quaterniond(q[0], q[1], q[2], q[3]); x.translationBlock().value() = eig(X.t); return x; }
// an arbitrary element B with translation of scale m, and the exponential E of an arbitrary twist with translation of scale m
struct Sc : PhiIn { MagIn v; QIn q; V3 sg; Rigid E, B; explicit Sc(bool lim) : PhiIn("P", lim), v("v"), q("Y") { for (int i = 0; i < 3; ++i) { sg[i] = vc_var_i("s", i); vc_assume_le(-1, sg[i]); vc_assume_le(sg[i], 1); } E = Rigid{R, mul(V(), v.v)}; B = Rigid{q.R, v.m * sg}; } template <class T> T elem() const { return rig(B, q.q, static_cast<T *>(nullptr)); } Twistd twist() const { return Twistd{twistVec(phi, v.v)}; } };
template <class T> void plus() { Sc p(false); const T x = p.elem<T>(); const Twistd d = p.twist(); const Rigid want = compose(p.E, p.B); near("X + d", view(eval(x + d)), want, p.v.m); ensureEq("X unchanged", view(x), p.B); ensureEq("d unchanged", view(d), Twist6{p.phi, p.v.v}); }
template <class T> void plusForms() { Sc p(false); const T x = p.elem<T>(); const Twistd d = p.twist(); const Rigid want = compose(p.E, p.B); near("temporaries", view(eval(T{x} + p.twist())), want, p.v.m); { const TM y{x + d}; near("to matrix", view(y), want, p.v.m); } { T y{x}; y = y + d; near("X = X + d", view(y), want, p.v.m); } { const auto e = x + d; near("stored", view(e.eval()), want, p.v.m); } }
template <class T> void plus0() { In<T> x("X"); V3 v = v3(vc_var_i("v", 0), vc_var_i("v", 1), vc_var_i("v", 2)); const Twistd d{twistVec(v3(0, 0, 0), v)}; ensureEq("X + (0,v)", view(eval(x.leaf + d)), Rigid{x.val().R, x.val().t + v}); }
template <class T> void minus0() { In<T> x("X"); ensureEq("X - X", view(eval(x.leaf - T{x.leaf})), Twist6{v3(0, 0, 0), v3(0, 0, 0)}); ensureEq("X - X (same object)", view(eval(x.leaf - x.leaf)), Twist6{v3(0, 0, 0), v3(0, 0, 0)}); }
// differing by a translation only: Y - X = (0, v), and X + (Y - X) = Y
template <class T> void minusV() { In<T> x("X"); V3 v = v3(vc_var_i("v", 0), vc_var_i("v", 1), vc_var_i("v", 2)); const TM y{eig(Rigid{x.val().R, x.val().t + v})}; ensureEq("Y - X", view(eval(y - x.leaf)), Twist6{v3(0, 0, 0), v}); }
template <class T> void plusIs() { Sc p(false); const T x = p.elem<T>(); const Twistd d = p.twist(); ensureEq("X + d == exp(d)*X", view(eval(x + d)), view(eval(exp(d) * x))); }
template <class X, class Y> void minus(const Sc &p, const X &x, const Y &y) {
    nearTw("X - Y", view(eval(x - y)), p.phi, p.v.v, p.th, p.v.m);
    if (std::is_same<X, Y>{}) { const auto e = X{x} - Y{y}; nearTw("temporaries", view(eval(e)), p.phi, p.v.v, p.th, p.v.m); const Twistd t{x - y}; nearTw("construct", view(t), p.phi, p.v.v, p.th, p.v.m); }
    ensureEq("X - Y == log(X*inverse(Y))", view(eval(x - y)), view(eval(log(x * inverse(y)))));
}
template <class Y> void minusFromM() { Sc p(true); const Y y = p.elem<Y>(); const TM x{eig(compose(p.E, p.B))}; minus(p, x, y); }
template <class X> void minusToM() { Sc p(true); const X x = p.elem<X>(); const TM y{eig(compose(inv(p.E), p.B))}; minus(p, x, y); }
template <class X, class Y> void round(const Sc &p, const X &x, const Y &y, const Rigid &want) { near("Y + (X - Y)", view(eval(y + (x - y))), want, p.v.m); }
template <class Y> void roundFromM() { Sc p(true); const Y y = p.elem<Y>(); const Rigid w = compose(p.E, p.B); const TM x{eig(w)}; round(p, x, y, w); }
template <class X> void roundToM() { Sc p(true); const X x = p.elem<X>(); const TM y{eig(compose(inv(p.E), p.B))}; round(p, x, y, p.B); }
// Y + (X - Y) is the composition of exp and log the definition prescribes (with G03 and G01: X)
template <class X, class Y> void redo() { Sc p(true); const Y y = p.elem<Y>(); const X x{TM{eig(compose(p.E, p.B))}}; ensureEq("Y + (X - Y)", view(eval(y + (x - y))), view(eval(exp(log(x * inverse(y))) * y))); }
}
H(G04_rigid_plus_M, plus<TM>())
H(G04_rigid_plusforms_M, plusForms<TM>())
H(G04_rigid_plus0_M, plus0<TM>())
H(G04_rigid_plus0_Q, plus0<TQ>())
H(G04_rigid_minus0_M, minus0<TM>())
H(G04_rigid_minus0_Q, minus0<TQ>())
H(G04_rigid_minusV_M, minusV<TM>())
H(G04_rigid_minusV_Q, minusV<TQ>())
H(G04_rigid_redo_MM, redo<TM, TM>())
H(G04_rigid_plus_is_M, plusIs<TM>())
H(G04_rigid_plus_is_Q, plusIs<TQ>())
H(G04_rigid_minus_MM, minusFromM<TM>())
H(G04_rigid_minus_MQ, minusFromM<TQ>())
H(G04_rigid_minus_QM, minusToM<TQ>())
H(G04_rigid_round_MM, roundFromM<TM>())
H(G04_rigid_round_QM, roundToM<TQ>())
