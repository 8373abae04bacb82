// Contract of a factor: evaluate(params) == L * (f(params) - z), evaluateWithJacobians(params) == (the same residual,
// df/dparam1, df/dparam2, ...), where L is the inverse square root of the measurement covariance.
#pragma once
#include "dense.hpp"
#include "explog.hpp"
namespace vc {
inline D col(const V3 &v) { D d = dzero(3, 1); for (int i = 0; i < 3; ++i) d.a[i][0] = v[i]; return d; }
inline D col(const Twist6 &v) { D d = dzero(6, 1); for (int i = 0; i < 3; ++i) { d.a[i][0] = v.w[i]; d.a[3 + i][0] = v.v[i]; } return d; }
inline D col(double x) { D d = dzero(1, 1); d.a[0][0] = x; return d; }
inline D stack(const D &x, const D &y) { return dset(dset(dzero(x.r + y.r, 1), 0, 0, x), x.r, 0, y); }
inline D ddiag(const D &v) { D m = dzero(v.r, v.r); for (int i = 0; i < v.r; ++i) m.a[i][i] = v.a[i][0]; return m; }
// arbitrary positive standard deviations
inline D sigmas(const char *n, int k) { D d = dvar(n, k, 1); for (int i = 0; i < k; ++i) vc_assume_lt(0, d.a[i][0]); return d; }
inline D squares(D s) { for (int i = 0; i < s.r; ++i) s.a[i][0] = s.a[i][0] * s.a[i][0]; return s; }
inline D inverses(D s) { for (int i = 0; i < s.r; ++i) s.a[i][0] = 1 / s.a[i][0]; return s; }
template <class L> constexpr int tangentSize = wave::internal::traits<L>::TangentSize;
template <class L> DiagonalNoise<L> diagNoise(const D &s) { return DiagonalNoise<L>::FromStdDev(fix<tangentSize<L>, 1>(s)); }
template <class L> void checkDiag(const DiagonalNoise<L> &n, const D &s) { same("covariance", n.covariance().diagonal(), squares(s)); same("inverse square root", n.inverseSqrtCov().diagonal(), inverses(s)); }
// the derivative of the specification value with respect to an operand, as a contract on the reported Jacobian
template <class J> void jacIs(const char *l, const D &f, const J &j, const Dirs &in) {
    Ctx c(l); vc_ensure("shape", j.rows() == f.r && j.cols() == in.dim);
    if (j.rows() == f.r && j.cols() == in.dim) for (int i = 0; i < in.nd; ++i) { Ctx d(IX[i]); for (int r = 0; r < f.r; ++r) vc_ensure_eq(IX[r], vc_diff(in.dir[i], f.a[r][0]), jrow(j, r, in.tan[i], in.dim)); }
}
template <class Tuple, size_t... I, class... In> void jacsAre(const D &f, const Tuple &t, std::index_sequence<I...>, const In &... in) { (jacIs(IX[I], f, std::get<I + 1>(t), in), ...); }
// FactorVariable cannot be instantiated for leaves without a plain array (quaternions, scalars, ...): such factors get no
// variable object, which evaluation does not use
template <class T, class = void> struct HasArray : std::false_type {};
template <class T> struct HasArray<T, std::void_t<decltype(std::declval<T &>().value().data()), decltype(std::declval<T &>().value().size())>> : std::true_type {};
template <class Leaf> std::shared_ptr<FactorVariable<Leaf>> var() { if constexpr (HasArray<Leaf>{}) return std::make_shared<FactorVariable<Leaf>>(); else return nullptr; }
// F: functor; z: measurement; s: standard deviations; f: the value of the measurement function in specification terms
template <class F, class Z, class... In> void diagonalFactor(const Z &z, const D &zv, const D &f, In &... in) {
    const D s = sigmas("sigma", zv.r);
    const Uncertain<Z, DiagonalNoise> meas{z, diagNoise<Z>(s)};
    checkDiag(meas.noise, s);
    const D r = ddiag(inverses(s)) * (f - zv);
    const auto fac = makeFactor<F>(meas, var<std::decay_t<decltype(in.leaf)>>()...);
    vc_ensure("arity", fac.size() == sizeof...(In) && fac.end() - fac.begin() == sizeof...(In) && !fac.isPerfectPrior());
    same("residual", fac.evaluate(in.leaf...), r);
    const auto t = fac.evaluateWithJacobians(in.leaf...);
    vc_ensure("tuple", std::tuple_size<std::decay_t<decltype(t)>>::value == sizeof...(In) + 1);
    same("residual with Jacobians", std::get<0>(t), r);
    jacsAre(f, t, std::index_sequence_for<In...>{}, in...);
    same("again", fac.evaluate(in.leaf...), r);
    const auto copy = fac; same("copied factor", copy.evaluate(in.leaf...), r);
    checkDiag(meas.noise, s);
}
}  // namespace vc
