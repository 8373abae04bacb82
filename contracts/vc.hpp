// Contract language used by the harnesses (ghost functions), plus the independent specification mathematics.
// Nothing here uses wave_geometry or Eigen: specification values are computed on plain arrays of double.
#pragma once
extern "C" {
double vc_var(const char *name);
void vc_unit(const char *name, double *p, int n);            // p[0..n-1]: arbitrary unit vector
void vc_assume_eq(double a, double b);
void vc_assume_lt(double a, double b);
void vc_assume_le(double a, double b);
void vc_assume_ne(double a, double b);
void vc_ensure_eq(const char *label, double a, double b);
void vc_ensure_le(const char *label, double a, double b);
void vc_ensure_lt(const char *label, double a, double b);
void vc_ensure_near(const char *label, double a, double b, double tol);
void vc_ensure(const char *label, bool cond);
void vc_push(const char *label);
void vc_pop();
void vc_stop();
bool vc_lt(double a, double b);
int vc_dir_new();
void vc_dir_set(int k, const char *var, int i, double dvalue); // derivative of variable `var` (component i, or -1) along direction k
double vc_diff(int k, double expr);                          // derivative of expr along direction k
double vc_var_i(const char *name, int i);
double vc_sym_i(const char *name, int i);                    // like vc_var_i, but the same number every time it is asked for
double sin(double); double cos(double); double sqrt(double); double acos(double); double fabs(double);
}
namespace vc {
struct Ctx { explicit Ctx(const char *l) { vc_push(l); } ~Ctx() { vc_pop(); } };
static const char *const RC[3][3] = {{"[0,0]", "[0,1]", "[0,2]"}, {"[1,0]", "[1,1]", "[1,2]"}, {"[2,0]", "[2,1]", "[2,2]"}};
static const char *const IX[12] = {"[0]", "[1]", "[2]", "[3]", "[4]", "[5]", "[6]", "[7]", "[8]", "[9]", "[10]", "[11]"};
struct V3 { double a[3]; double &operator[](int i) { return a[i]; } double operator[](int i) const { return a[i]; } };
struct M3 { double a[3][3]; };
inline V3 v3(double x, double y, double z) { return V3{{x, y, z}}; }
inline V3 operator+(V3 a, V3 b) { return v3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(V3 a, V3 b) { return v3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator-(V3 a) { return v3(-a[0], -a[1], -a[2]); }
inline V3 operator*(double s, V3 a) { return v3(s * a[0], s * a[1], s * a[2]); }
inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(V3 a, V3 b) { return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
inline V3 mul(const M3 &m, V3 v) { V3 r; for (int i = 0; i < 3; ++i) r[i] = m.a[i][0] * v[0] + m.a[i][1] * v[1] + m.a[i][2] * v[2]; return r; }
inline M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = a.a[i][0] * b.a[0][j] + a.a[i][1] * b.a[1][j] + a.a[i][2] * b.a[2][j]; return r; }
inline M3 tr(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = a.a[j][i]; return r; }
inline M3 add(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = a.a[i][j] + b.a[i][j]; return r; }
inline M3 scale(double s, const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = s * a.a[i][j]; return r; }
inline M3 neg(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = -a.a[i][j]; return r; }
inline M3 eye() { return M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
inline M3 zero3() { return M3{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}; }
inline M3 hat(V3 v) { return M3{{{0, -v[2], v[1]}, {v[2], 0, -v[0]}, {-v[1], v[0], 0}}}; }
inline M3 outer(V3 a, V3 b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = a[i] * b[j]; return r; }
inline double det(const M3 &m) { return m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) - m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) + m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]); }
// rotation matrix of the unit quaternion q = (w,x,y,z)
inline M3 qmat(const double *q) {
    double w = q[0], x = q[1], y = q[2], z = q[3];
    return M3{{{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}}};
}
// rotation by angle (given by its sine and cosine) about the unit axis u
inline M3 axang(double s, double c, V3 u) { return add(eye(), add(scale(s, hat(u)), scale(1 - c, mul(hat(u), hat(u))))); }
struct Rigid { M3 R; V3 t; };
struct Twist6 { V3 w, v; };
inline Rigid compose(const Rigid &a, const Rigid &b) { return Rigid{mul(a.R, b.R), mul(a.R, b.t) + a.t}; }
inline Rigid inv(const Rigid &a) { return Rigid{tr(a.R), -mul(tr(a.R), a.t)}; }
inline void ensureEq(const char *l, V3 a, V3 b) { Ctx c(l); for (int i = 0; i < 3; ++i) vc_ensure_eq(IX[i], a[i], b[i]); }
inline void ensureEq(const char *l, const M3 &a, const M3 &b) { Ctx c(l); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc_ensure_eq(RC[i][j], a.a[i][j], b.a[i][j]); }
inline void ensureEq(const char *l, double a, double b) { vc_ensure_eq(l, a, b); }
inline void ensureEq(const char *l, const Rigid &a, const Rigid &b) { Ctx c(l); ensureEq("rotation", a.R, b.R); ensureEq("translation", a.t, b.t); }
inline V3 diff(int k, V3 a) { return v3(vc_diff(k, a[0]), vc_diff(k, a[1]), vc_diff(k, a[2])); }
inline M3 diff(int k, const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = vc_diff(k, a.a[i][j]); return r; }
}  // namespace vc
