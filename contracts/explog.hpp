// Inputs and specifications for exponential and logarithm: phi = theta*u with theta > 0 and u a unit vector, so that the
// closed forms are rational in (theta, sin theta, cos theta, u); theta = 0 is a separate concrete input.
#pragma once
#include "wvc.hpp"
namespace vc {
constexpr double EPS = 2.220446049250313e-16;
#define VC_PI 3.14159265358979323846
inline void ensureNear(const char *l, V3 a, V3 b, double tol) { Ctx c(l); for (int i = 0; i < 3; ++i) vc_ensure_near(IX[i], a[i], b[i], tol); }
inline void ensureNear(const char *l, const M3 &a, const M3 &b, double tol) { Ctx c(l); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc_ensure_near(RC[i][j], a.a[i][j], b.a[i][j], tol); }
// any nonzero rotation vector
struct PhiIn : Dirs {
    const char *n; double th, u[3]; V3 a, phi; M3 R;  // R = exp(phi^)
    static double *init(const char *n, double *u) { vc_unit(n, u, 3); return u; }
    explicit PhiIn(const char *n_, bool belowPi = false) : n(n_), th(vc_var_i(n_, 9)) {
        init(n, u); vc_assume_lt(0, th); if (belowPi) vc_assume_lt(th, VC_PI);
        a = v3(u[0], u[1], u[2]); phi = th * a; R = axang(sin(th), cos(th), a);
    }
    // w: direction in which the axis turns (spans the tangent plane of the sphere together with theta)
    V3 axisTurn() const { return cross(v3(vc_var_i(n, 6), vc_var_i(n, 7), vc_var_i(n, 8)), a); }
    int addDir(double dth, V3 da) { int k = vc_dir_new(); if (dth != 0) vc_dir_set(k, n, 9, dth); for (int i = 0; i < 3; ++i) vc_dir_set(k, n, i, da[i]); dir[nd] = k; return nd++; }
    // tangent directions in the coordinates of the vector phi
    void phiDirs() { dim = 3; { int i = addDir(1, v3(0, 0, 0)); tan[i] = Tan{{u[0], u[1], u[2], 0, 0, 0}}; } { V3 da = axisTurn(); int i = addDir(0, da); tan[i] = Tan{{th * da[0], th * da[1], th * da[2], 0, 0, 0}}; } }
    // tangent directions in left-perturbation coordinates of the rotation exp(phi)
    void rotDirs() { dim = 3; { int i = addDir(1, v3(0, 0, 0)); tan[i] = Tan{{u[0], u[1], u[2], 0, 0, 0}}; } { V3 da = axisTurn(); V3 o = sin(th) * da + (1 - cos(th)) * cross(a, da); int i = addDir(0, da); tan[i] = Tan{{o[0], o[1], o[2], 0, 0, 0}}; } }
    Eigen::Matrix3d m() const { return eig(R); }
    Eigen::Quaterniond q(double sgn = 1) const { double c = sgn * cos(th / 2), s = sgn * sin(th / 2); return Eigen::Quaterniond(c, s * u[0], s * u[1], s * u[2]); }
    // V(phi) = I + (1-cos)/th u^ + (1 - sin/th) u^^2
    M3 V() const { return add(eye(), add(scale((1 - cos(th)) / th, hat(a)), scale(1 - sin(th) / th, mul(hat(a), hat(a))))); }
};
// translation v = m*tau with |tau_i| <= 1: errors are bounded relative to m
struct MagIn { double m; V3 tau, v; explicit MagIn(const char *n) : m(vc_var_i(n, 5)) { vc_assume_lt(0, m); for (int i = 0; i < 3; ++i) { tau[i] = vc_var_i(n, i); vc_assume_le(-1, tau[i]); vc_assume_le(tau[i], 1); } v = m * tau; } };
inline Eigen::Matrix<double, 6, 1> twistVec(V3 w, V3 v) { Eigen::Matrix<double, 6, 1> x; for (int i = 0; i < 3; ++i) { x(i) = w[i]; x(3 + i) = v[i]; } return x; }
}  // namespace vc
namespace vc {
struct M6 { M3 a, b, c, d; };  // blocks [a b; c d], rotation first
inline M3 sub(const M3 &x, const M3 &y) { return add(x, neg(y)); }
inline M6 mul(const M6 &x, const M6 &y) { return M6{add(mul(x.a, y.a), mul(x.b, y.c)), add(mul(x.a, y.b), mul(x.b, y.d)), add(mul(x.c, y.a), mul(x.d, y.c)), add(mul(x.c, y.b), mul(x.d, y.d))}; }
inline M6 adjoint(const Rigid &X) { return M6{X.R, zero3(), mul(hat(X.t), X.R), X.R}; }
template <class J> M3 mat3(const J &j, int r = 0, int c = 0) { M3 m; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m.a[i][k] = j.coeff(r + i, c + k); return m; }
template <class J> M6 mat6(const J &j) { return M6{mat3(j, 0, 0), mat3(j, 0, 3), mat3(j, 3, 0), mat3(j, 3, 3)}; }
inline void ensureNear(const char *l, const M6 &x, const M6 &y, double tol, double m) { Ctx c(l); ensureNear("rot/rot", x.a, y.a, tol); ensureNear("rot/trans", x.b, y.b, tol); ensureNear("trans/rot", x.c, y.c, tol * m); ensureNear("trans/trans", x.d, y.d, tol); }
// differential of the exponential of (theta*a, v): blocks [V 0; Q V]; the lemma harnesses show it is the derivative
inline M6 dexp(const PhiIn &p, V3 v) {
    double th = p.th, s = sin(th), c = cos(th); M3 A = hat(p.a), P = hat(v), AP = mul(A, P), PA = mul(P, A), APA = mul(AP, A);
    M3 q1 = scale((th - s) / (th * th), add(AP, PA)), q2 = scale((th - s) / th, APA);
    double g = (1 - th * th / 2 - c) / (th * th), k = (th - s - th * th * th / 6) / (th * th * th);
    M3 q3 = scale(-g, sub(add(mul(A, AP), mul(PA, A)), scale(3, APA)));
    M3 q4 = scale(-0.5 * (g * th - 3 * k * th), add(mul(APA, A), mul(A, APA)));
    M3 V = p.V(); return M6{V, zero3(), add(add(scale(0.5, P), q1), add(add(q2, q3), q4)), V};
}
}  // namespace vc
