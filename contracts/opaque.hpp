// Opaque operations: user-defined expression nodes whose value and local Jacobians are arbitrary (fresh symbolic coefficients
// per node, and dependent on the values the evaluator hands over). A statement proved for a tree with opaque nodes holds
// for whatever operations stand in their place: the evaluators only ever combine what evalImpl and jacobianImpl return.
#pragma once
#include "wvc.hpp"
#include <wave/geometry/dynamic.hpp>
namespace opq {
using namespace wave;
inline const char *nm(int id) { static const char *const N[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15"}; return N[id]; }
inline double var(int id, int i) { return vc_sym_i(nm(id), i); }
// a dense matrix of numbers, independent of Eigen
struct Mat { int r, c; double a[36]; double &operator()(int i, int j) { return a[i * c + j]; } double operator()(int i, int j) const { return a[i * c + j]; } };
inline Mat zeros(int r, int c) { Mat m; m.r = r; m.c = c; for (int i = 0; i < r * c; ++i) m.a[i] = 0; return m; }
inline Mat ident(int r) { Mat m = zeros(r, r); for (int i = 0; i < r; ++i) m(i, i) = 1; return m; }
inline Mat operator*(const Mat &x, const Mat &y) { Mat m; m.r = x.r; m.c = y.c; for (int i = 0; i < x.r; ++i) for (int j = 0; j < y.c; ++j) { double s = x(i, 0) * y(0, j); for (int k = 1; k < x.c; ++k) s = s + x(i, k) * y(k, j); m(i, j) = s; } return m; }
inline Mat operator+(const Mat &x, const Mat &y) { Mat m; m.r = x.r; m.c = x.c; for (int i = 0; i < x.r * x.c; ++i) m.a[i] = x.a[i] + y.a[i]; return m; }
template <class D> double co(const Eigen::MatrixBase<D> &m, int i) { return m.derived().coeff(i); }
inline double co(const double &d, int) { return d; }
template <class T> Mat col(const T &t) { Mat m = zeros(internal::traits<T>::Size, 1); for (int i = 0; i < m.r; ++i) m.a[i] = co(t.value(), i); return m; }
// node N: out_i = b_i + p*x_0 (+ q*y_0);  J_ij = c_ij + d*out_i + e*x_j (+ f*y_j), coefficients arbitrary
inline Mat uval(int N, int dim, const Mat &x) { Mat m = zeros(dim, 1); for (int i = 0; i < dim; ++i) m.a[i] = var(N, i) + var(N, 10) * x.a[0]; return m; }
inline Mat ujac(int N, const Mat &out, const Mat &x) { Mat m = zeros(out.r, x.r); for (int i = 0; i < out.r; ++i) for (int j = 0; j < x.r; ++j) m(i, j) = var(N, 100 + 6 * i + j) + var(N, 11) * out.a[i] + var(N, 12) * x.a[j]; return m; }
inline Mat bval(int N, int dim, const Mat &x, const Mat &y) { Mat m = uval(N, dim, x); for (int i = 0; i < dim; ++i) m.a[i] = m.a[i] + var(N, 13) * y.a[0]; return m; }
inline Mat bjac(int N, int side, const Mat &out, const Mat &x, const Mat &y) { const Mat &w = side ? y : x; const Mat &z = side ? x : y; Mat m = zeros(out.r, w.r); int o = 200 + 100 * side; for (int i = 0; i < out.r; ++i) for (int j = 0; j < w.r; ++j) m(i, j) = var(N, o + 6 * i + j) + var(N, o + 50) * out.a[i] + var(N, o + 51) * w.a[j] + var(N, o + 52) * z.a[0]; return m; }
template <class Out> Out mk(const Mat &m);
template <> inline Translationd mk<Translationd>(const Mat &m) { return Translationd{m.a[0], m.a[1], m.a[2]}; }
template <> inline RelativeRotationd mk<RelativeRotationd>(const Mat &m) { return RelativeRotationd{m.a[0], m.a[1], m.a[2]}; }
template <> inline Scalar<double> mk<Scalar<double>>(const Mat &m) { return Scalar<double>{m.a[0]}; }
template <> inline Twistd mk<Twistd>(const Mat &m) { Eigen::Matrix<double, 6, 1> v; for (int i = 0; i < 6; ++i) v(i) = m.a[i]; return Twistd{v}; }
template <int R, int C> Eigen::Matrix<double, R, C> dense(const Mat &m) { Eigen::Matrix<double, R, C> r; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) r(i, j) = m(i, j); return r; }
template <class V, class X> using Jac = Eigen::Matrix<double, internal::traits<V>::TangentSize, internal::traits<X>::TangentSize>;
template <class V, class X> Jac<V, X> asJac(const Mat &m) { return dense<internal::traits<V>::TangentSize, internal::traits<X>::TangentSize>(m); }
}  // namespace opq
#define OPQ_UNARY(Name, Id, Base, Out)                                                                                     \
    namespace wave {                                                                                                        \
    WAVE_SIMPLE_UNARY_EXPRESSION(Name, Base)                                                                                \
    namespace internal {                                                                                                    \
    template <typename Rhs> Out evalImpl(expr<Name>, const ExpressionBase<Rhs> &r) { return opq::mk<Out>(opq::uval(Id, traits<Out>::Size, opq::col(r.derived()))); } \
    template <typename Val, typename Rhs> opq::Jac<Val, Rhs> jacobianImpl(expr<Name>, const ExpressionBase<Val> &v, const ExpressionBase<Rhs> &r) { return opq::asJac<Val, Rhs>(opq::ujac(Id, opq::col(v.derived()), opq::col(r.derived()))); } \
    }}                                                                                                                      \
    template <class E> auto mk##Name(E &&e) { return wave::Name<wave::internal::arg_t<E>>{std::forward<E>(e)}; }           \
    namespace opq { struct tag##Name { enum { id = Id, dim = wave::internal::traits<wave::Out>::Size }; template <class E> auto operator()(E &&e) const { return mk##Name(std::forward<E>(e)); } }; }
#define OPQ_BINARY(Name, Id, Base, Out)                                                                                    \
    namespace wave {                                                                                                        \
    WAVE_SIMPLE_BINARY_EXPRESSION(Name, Base)                                                                               \
    namespace internal {                                                                                                    \
    template <typename Lhs, typename Rhs> Out evalImpl(expr<Name>, const ExpressionBase<Lhs> &l, const ExpressionBase<Rhs> &r) { return opq::mk<Out>(opq::bval(Id, traits<Out>::Size, opq::col(l.derived()), opq::col(r.derived()))); } \
    template <typename Val, typename Lhs, typename Rhs> opq::Jac<Val, Lhs> leftJacobianImpl(expr<Name>, const ExpressionBase<Val> &v, const ExpressionBase<Lhs> &l, const ExpressionBase<Rhs> &r) { return opq::asJac<Val, Lhs>(opq::bjac(Id, 0, opq::col(v.derived()), opq::col(l.derived()), opq::col(r.derived()))); } \
    template <typename Val, typename Lhs, typename Rhs> opq::Jac<Val, Rhs> rightJacobianImpl(expr<Name>, const ExpressionBase<Val> &v, const ExpressionBase<Lhs> &l, const ExpressionBase<Rhs> &r) { return opq::asJac<Val, Rhs>(opq::bjac(Id, 1, opq::col(v.derived()), opq::col(l.derived()), opq::col(r.derived()))); } \
    }}                                                                                                                      \
    template <class L, class R> auto mk##Name(L &&l, R &&r) { return wave::Name<wave::internal::arg_t<L>, wave::internal::arg_t<R>>{std::forward<L>(l), std::forward<R>(r)}; } \
    namespace opq { struct tag##Name { enum { id = Id, dim = wave::internal::traits<wave::Out>::Size }; template <class L, class R> auto operator()(L &&l, R &&r) const { return mk##Name(std::forward<L>(l), std::forward<R>(r)); } }; }
OPQ_UNARY(OpV, 0, VectorBase, Translationd)
OPQ_UNARY(OpW, 1, VectorBase, Translationd)
OPQ_UNARY(OpR, 2, VectorBase, RelativeRotationd)
OPQ_UNARY(OpS, 3, ScalarBase, Scalar<double>)
OPQ_UNARY(OpT, 4, VectorBase, Twistd)
OPQ_BINARY(BiV, 5, VectorBase, Translationd)
OPQ_BINARY(BiW, 6, VectorBase, Translationd)
OPQ_BINARY(BiS, 7, ScalarBase, Scalar<double>)
OPQ_BINARY(BiT, 8, VectorBase, Twistd)
OPQ_BINARY(BiR, 9, VectorBase, RelativeRotationd)
namespace opq {
// ------------------------------------------------------------- specification: value and Jacobians by the chain rule
constexpr int SLOTS = 4;
struct Sp { Mat v; bool has[SLOTS]; Mat J[SLOTS]; };
inline Sp leafSp(const Mat &v, int slot) { Sp s; s.v = v; for (int k = 0; k < SLOTS; ++k) { s.has[k] = k == slot; if (k == slot) s.J[k] = ident(v.r); } return s; }
template <class Tag> Sp unSp(Tag, const Sp &x) { Sp s; s.v = uval(Tag::id, Tag::dim, x.v); Mat j = ujac(Tag::id, s.v, x.v); for (int k = 0; k < SLOTS; ++k) { s.has[k] = x.has[k]; if (s.has[k]) s.J[k] = j * x.J[k]; } return s; }
template <class Tag> Sp biSp(Tag, const Sp &x, const Sp &y) { Sp s; s.v = bval(Tag::id, Tag::dim, x.v, y.v); Mat l = bjac(Tag::id, 0, s.v, x.v, y.v), r = bjac(Tag::id, 1, s.v, x.v, y.v); for (int k = 0; k < SLOTS; ++k) { s.has[k] = x.has[k] || y.has[k]; if (x.has[k] && y.has[k]) s.J[k] = l * x.J[k] + r * y.J[k]; else if (x.has[k]) s.J[k] = l * x.J[k]; else if (y.has[k]) s.J[k] = r * y.J[k]; } return s; }
// the same tree is built once as a library expression and once as a specification
template <class X> struct is_sp : std::is_same<std::decay_t<X>, Sp> {};
template <class Tag> struct Node1 { template <class X> auto operator()(X &&x) const { if constexpr (is_sp<X>{}) return unSp(Tag{}, x); else return Tag{}(std::forward<X>(x)); } };
template <class Tag> struct Node2 { template <class X, class Y> auto operator()(X &&x, Y &&y) const { if constexpr (is_sp<X>{}) return biSp(Tag{}, x, y); else return Tag{}(std::forward<X>(x), std::forward<Y>(y)); } };
constexpr Node1<tagOpV> v1{}; constexpr Node1<tagOpW> w1{}; constexpr Node1<tagOpR> r1{}; constexpr Node1<tagOpS> s1{}; constexpr Node1<tagOpT> t1{};
constexpr Node2<tagBiV> v2{}; constexpr Node2<tagBiW> w2{}; constexpr Node2<tagBiS> s2{}; constexpr Node2<tagBiT> t2{}; constexpr Node2<tagBiR> r2{};
// ------------------------------------------------------------- obligations
template <class JT> void jacIs(const char *l, const JT &J, const Sp &s, int slot, int cols) { vc::Ctx c(l); vc_ensure("shape", J.rows() == s.v.r && J.cols() == cols); if (J.rows() != s.v.r || J.cols() != cols) return; for (int i = 0; i < s.v.r; ++i) { vc::Ctx d(vc::IX[i]); for (int j = 0; j < cols; ++j) vc_ensure_eq(vc::IX[j], J.coeff(i, j), s.has[slot] ? s.J[slot](i, j) : 0.0); } }
template <class V> void valIs(const V &v, const Sp &s) { vc::Ctx c("value"); Mat m = col(v); vc_ensure("size", m.r == s.v.r); for (int i = 0; i < m.r; ++i) vc_ensure_eq(vc::IX[i], m.a[i], s.v.a[i]); }
template <class L> constexpr int dimOf(const L &) { return internal::traits<L>::TangentSize; }
}  // namespace opq
