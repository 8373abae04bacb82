// G18: full-covariance noise. The eigen-decomposition of Eigen is a dependency under an assumed contract: for the given
// matrix C it returns some symmetric S (with S C S = I). Verified here: the covariance is stored as given, the solver
// is applied to exactly that covariance, and its result is what normalises the residual.
// NO_NATIVE
#include <Eigen/Eigenvalues>
#include "factors.hpp"
namespace ghost { inline vc::D arg, result; }
namespace Eigen {
template <class M> class AssumedSolver {
 public:
    template <class T> explicit AssumedSolver(const EigenBase<T> &m, int = 0) { ghost::arg = vc::dzero(m.rows(), m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) ghost::arg.a[i][j] = m.derived()(i, j); }
    M operatorInverseSqrt() const { M s; ghost::result = vc::dzero(s.rows(), s.cols()); for (int i = 0; i < s.rows(); ++i) for (int j = 0; j <= i; ++j) { const double x = vc_sym_i("S", 20 * i + j); ghost::result.a[i][j] = ghost::result.a[j][i] = x; s(i, j) = s(j, i) = x; } return s; }
};
template <class L> class SelfAdjointEigenSolver<wave::BlockMatrix<L, L>> : public AssumedSolver<typename wave::BlockMatrix<L, L>::Base> { using AssumedSolver<typename wave::BlockMatrix<L, L>::Base>::AssumedSolver; };
template <int N> class SelfAdjointEigenSolver<Matrix<double, N, N>> : public AssumedSolver<Matrix<double, N, N>> { using AssumedSolver<Matrix<double, N, N>>::AssumedSolver; };
}
using namespace vc;
using Sc = Scalar<double>;
namespace {
struct FDiff { template <class A, class B> auto operator()(const A &a, const B &b) { return a - b; } };
struct FSum { template <class A, class B> auto operator()(const A &a, const B &b) { return a + b; } };
struct Act { template <class A, class B> auto operator()(const A &a, const B &b) { return a * b; } };
using Pr = cmp::Pair<Translationd, Sc>;
struct PairF { template <class A, class B> auto operator()(const A &a, const B &b) { return cmp::Pair<decltype(a - b), decltype(dot(a, b))>{a - b, dot(a, b)}; } };
inline D symmetric(const char *n, int k) { D c = dvar(n, k, k); for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) c.a[i][j] = c.a[j][i]; return c; }
inline void sameD(const char *l, const D &m, const D &d) { Ctx c(l); for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) { Ctx r(IY[i]); vc_ensure_eq(IY[j], m.a[i][j], d.a[i][j]); } }
template <class L> void check(const FullNoise<L> &n, const D &c) { sameD("decomposed matrix", ghost::arg, c); same("covariance", n.covariance(), c); same("inverse square root", n.inverseSqrtCov(), ghost::result); }
template <class L> void noise() {
    constexpr int k = tangentSize<L>;
    const D c = symmetric("C", k); Eigen::Matrix<double, k, k> C = fix<k, k>(c);
    const auto n = FullNoise<L>::FromCovariance(C); check(n, c);
    auto m = n; check(m, c);
    { Ctx x("given up"); auto a = n; vc::same("covariance", std::move(a).covariance(), c); auto b = n; vc::same("inverse square root", std::move(b).inverseSqrtCov(), ghost::result); }
    { Ctx x("given-up matrix"); Eigen::Matrix<double, k, k> G = C; const auto g = FullNoise<L>::FromCovariance(std::move(G)); check(g, c); }
    { Ctx x("expression"); const auto g = FullNoise<L>::FromCovariance(C + C); check(g, c + c); }
    { Ctx x("of a temporary"); const auto g = FullNoise<L>::FromCovariance(C).covariance(); vc::same("covariance", g, c); const auto h = FullNoise<L>::FromCovariance(C).inverseSqrtCov(); vc::same("inverse square root", h, ghost::result); }
}
template <class F, class Z, class... In> void fullFactor(const Z &z, const D &zv, const D &f, In &... in) {
    constexpr int k = tangentSize<Z>;
    const D c = symmetric("C", k);
    const Uncertain<Z, FullNoise> meas{z, FullNoise<Z>::FromCovariance(fix<k, k>(c))};
    check(meas.noise, c);
    const D r = ghost::result * (f - zv);
    const auto fac = makeFactor<F>(meas, var<std::decay_t<decltype(in.leaf)>>()...);
    vc::same("residual", fac.evaluate(in.leaf...), r);
    const auto t = fac.evaluateWithJacobians(in.leaf...);
    vc::same("residual with Jacobians", std::get<0>(t), r);
    jacsAre(f, t, std::index_sequence_for<In...>{}, in...);
}
}
H(G18_full_noise_vector, noise<Translationd>())
H(G18_full_noise_rotation, noise<RelativeRotationd>())
H(G18_full_noise_twist, noise<Twistd>())
H(G18_full_noise_compound, noise<Pr>())
H(G18_full_noise_scalar, noise<Sc>())
H(G18_full_difference, In<Translationd> a("a"), b("b"), z("z"); fullFactor<FDiff>(z.leaf, col(z.val()), col(a.val() - b.val()), a, b))
H(G18_full_twist, In<Twistd> a("a"), b("b"), z("z"); fullFactor<FSum>(z.leaf, col(z.val()), col(a.val()) + col(b.val()), a, b))
H(G18_full_rotated, In<RQ> a("a"); In<Translationd> b("b"), z("z"); fullFactor<Act>(z.leaf, col(z.val()), col(act(a.val(), b.val())), a, b))
H(G18_full_transformed, In<TM> a("a"); In<Translationd> b("b"), z("z"); fullFactor<Act>(z.leaf, col(z.val()), col(act(a.val(), b.val())), a, b))
H(G18_full_pair, In<Translationd> a("a"), b("b"), z("z"); In<Sc> y("y"); Pr m{z.leaf, y.leaf}; fullFactor<PairF>(m, stack(col(z.val()), col(y.val())), stack(col(a.val() - b.val()), col(dot(a.val(), b.val()))), a, b))
