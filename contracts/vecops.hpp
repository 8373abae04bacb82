// Operand forms and specification arrays for vector, point and scalar arithmetic.
#pragma once
#include "wvc.hpp"
namespace vc {
struct Arr { int n; double a[6]; double operator[](int i) const { return a[i]; } double &operator[](int i) { return a[i]; } };
inline Arr arr(const V3 &v) { Arr r; r.n = 3; for (int i = 0; i < 3; ++i) r.a[i] = v[i]; return r; }
inline Arr arr(const Twist6 &t) { Arr r; r.n = 6; for (int i = 0; i < 3; ++i) { r.a[i] = t.w[i]; r.a[3 + i] = t.v[i]; } return r; }
inline Arr arr(double d) { Arr r; r.n = 1; r.a[0] = d; return r; }
template <class F> Arr map2(const Arr &x, const Arr &y, F f) { Arr r; r.n = x.n; for (int i = 0; i < x.n; ++i) r.a[i] = f(x[i], y[i]); return r; }
inline Arr operator+(const Arr &x, const Arr &y) { return map2(x, y, [](double a, double b) { return a + b; }); }
inline Arr operator-(const Arr &x, const Arr &y) { return map2(x, y, [](double a, double b) { return a - b; }); }
inline Arr operator*(double s, const Arr &y) { Arr r; r.n = y.n; for (int i = 0; i < y.n; ++i) r.a[i] = s * y[i]; return r; }
inline Arr operator/(const Arr &y, double s) { Arr r; r.n = y.n; for (int i = 0; i < y.n; ++i) r.a[i] = y[i] / s; return r; }
inline double dot(const Arr &x, const Arr &y) { double s = x[0] * y[0]; for (int i = 1; i < x.n; ++i) s = s + x[i] * y[i]; return s; }
inline Arr one(double x) { Arr r; r.n = 1; r.a[0] = x; return r; }
inline double at(double x, int) { return x; }
template <class D> double at(const Eigen::MatrixBase<D> &m, int i) { return m.derived().coeff(i); }
template <class T> int sizeOf(const T &) { return internal::traits<T>::Size; }
// value of an evaluated expression equals the formula
template <class R> void valueIs(const R &r, const Arr &x) { Ctx c("value"); static_assert(internal::is_leaf_expression<R>{}, "evaluates to a leaf"); vc_ensure("size", internal::traits<R>::Size == x.n); for (int i = 0; i < x.n; ++i) vc_ensure_eq(IX[i], at(r.value(), i), x[i]); }
// reported Jacobian equals the matrix of partial derivatives of the formula
template <class JT> void jacIs(const JT &J, const Arr &x, const Dirs &in) { vc_ensure("shape", J.rows() == x.n && J.cols() == in.dim); for (int j = 0; j < in.nd; ++j) { Ctx d(IX[j]); for (int i = 0; i < x.n; ++i) vc_ensure_eq(IX[i], J.coeff(i, j), vc_diff(in.dir[j], x[i])); } }
inline double &jref(double &d) { return d; }
template <class L> struct Vin : In<L> { Arr x; explicit Vin(const char *n) : In<L>(n), x(arr(this->val())) {} };
// built-in double operand
struct Din : Dirs { double leaf, v; Arr x; explicit Din(const char *n) : leaf(vc_var_i(n, 0)), v(leaf), x(one(leaf)) { dim = 1; int k = vc_dir_new(); vc_dir_set(k, n, 0, 1); dir[nd] = k; tan[nd] = Tan{{1, 0, 0, 0, 0, 0}}; ++nd; } };
template <class T> T copy(const T &t) { return t; }
inline const char *lab(int i) { return IX[i]; }
// an expression (not a leaf) with the value and Jacobian of a leaf
template <class T, class = std::enable_if_t<!std::is_arithmetic<T>::value>> auto ex(const T &t) { return -(-t); }
inline auto ex(const Pointd &p) { return p + Translationd{0., 0., 0.}; }
inline double ex(const double &d) { return d; }
template <class T> struct isBuiltin : std::is_arithmetic<T> {};
// every way of passing a and b to op; value contract for all, for G07
template <class A, class B, class Op> void valueForms(A &a, B &b, const Arr &x, Op op) {
    { Ctx c("l,l"); valueIs(eval(op(a.leaf, b.leaf)), x); }
    { Ctx c("r,l"); valueIs(eval(op(copy(a.leaf), b.leaf)), x); }
    { Ctx c("l,r"); valueIs(eval(op(a.leaf, copy(b.leaf))), x); }
    { Ctx c("r,r"); valueIs(eval(op(copy(a.leaf), copy(b.leaf))), x); }
    { Ctx c("stored"); const auto e = op(a.leaf, copy(b.leaf)); valueIs(eval(e), x); valueIs(e.eval(), x); }
    { Ctx c("e,l"); const auto e = ex(a.leaf); valueIs(eval(op(e, b.leaf)), x); valueIs(eval(op(ex(a.leaf), b.leaf)), x); valueIs(eval(op(ex(a.leaf), copy(b.leaf))), x); }
    { Ctx c("l,e"); const auto e = ex(b.leaf); valueIs(eval(op(a.leaf, e)), x); valueIs(eval(op(a.leaf, ex(b.leaf))), x); valueIs(eval(op(copy(a.leaf), ex(b.leaf))), x); }
    { Ctx c("e,e"); valueIs(eval(op(ex(a.leaf), ex(b.leaf))), x); }
}
template <class E, class T, std::enable_if_t<!std::is_arithmetic<T>::value, int> = 0> auto jacOf(const E &e, const T &t) { return e.jacobian(t); }
template <class E, class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> auto jacOf(const E &e, const T &t) { return std::get<1>(e.evalWithJacobians(t)); }
template <class A, class B, class Op> void jacForms(A &a, B &b, const Arr &x, Op op) {
    { Ctx c("l,l"); const auto e = op(a.leaf, b.leaf); jacIs(jacOf(e, a.leaf), x, a); jacIs(jacOf(e, b.leaf), x, b); }
    { Ctx c("l,r"); const auto e = op(a.leaf, copy(b.leaf)); jacIs(jacOf(e, a.leaf), x, a); }
    { Ctx c("r,l"); const auto e = op(copy(a.leaf), b.leaf); jacIs(jacOf(e, b.leaf), x, b); }
    if constexpr (!isBuiltin<decltype(a.leaf)>{} && !isBuiltin<decltype(b.leaf)>{}) { Ctx c("e,e"); const auto e = op(ex(a.leaf), ex(b.leaf)); jacIs(e.jacobian(a.leaf), x, a); jacIs(e.jacobian(b.leaf), x, b);
        const auto t = e.evalWithJacobians(b.leaf, a.leaf); valueIs(std::get<0>(t), x); jacIs(std::get<1>(t), x, b); jacIs(std::get<2>(t), x, a); }
}
struct Add { template <class A, class B> auto operator()(A &&a, B &&b) const { return std::forward<A>(a) + std::forward<B>(b); } };
struct Sub { template <class A, class B> auto operator()(A &&a, B &&b) const { return std::forward<A>(a) - std::forward<B>(b); } };
struct Mul { template <class A, class B> auto operator()(A &&a, B &&b) const { return std::forward<A>(a) * std::forward<B>(b); } };
struct Div { template <class A, class B> auto operator()(A &&a, B &&b) const { return std::forward<A>(a) / std::forward<B>(b); } };
struct Dot_ { template <class A, class B> auto operator()(A &&a, B &&b) const { return dot(std::forward<A>(a), std::forward<B>(b)); } };
struct Neg { template <class A> auto operator()(A &&a) const { return -std::forward<A>(a); } };
struct Nrm { template <class A> auto operator()(A &&a) const { return std::forward<A>(a).norm(); } };
struct SqN { template <class A> auto operator()(A &&a) const { return std::forward<A>(a).squaredNorm(); } };
struct Nzd { template <class A> auto operator()(A &&a) const { return std::forward<A>(a).normalized(); } };
struct Acs { template <class A> auto operator()(A &&a) const { return acos(std::forward<A>(a)); } };
template <class A, class Op> void valueForms1(A &a, const Arr &x, Op op) {
    { Ctx c("l"); valueIs(eval(op(a.leaf)), x); }
    { Ctx c("r"); valueIs(eval(op(copy(a.leaf))), x); }
    { Ctx c("e"); const auto e = ex(a.leaf); const auto f = op(e); valueIs(eval(f), x); valueIs(f.eval(), x); valueIs(eval(op(ex(a.leaf))), x); }
}
template <class A, class Op> void jacForms1(A &a, const Arr &x, Op op) {
    { Ctx c("l"); jacIs(op(a.leaf).jacobian(a.leaf), x, a); }
    { Ctx c("e"); const auto e = op(ex(a.leaf)); jacIs(e.jacobian(a.leaf), x, a); const auto t = e.evalWithJacobians(a.leaf); valueIs(std::get<0>(t), x); jacIs(std::get<1>(t), x, a); }
}
using SD = Scalar<double>; using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using PT = Pointd;
}  // namespace vc
