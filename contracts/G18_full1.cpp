// G18: full-covariance noise of a scalar, with Eigen's own eigen-decomposition verified (no assumed contract).
#include <Eigen/Eigenvalues>
#include "factors.hpp"
using namespace vc;
using Sc = Scalar<double>;
namespace {
struct FDot { template <class A, class B> auto operator()(const A &a, const B &b) { return dot(a, b); } };
}
H(G18_full_real_scalar, In<Translationd> a("a"), b("b"); In<Sc> z("z"); const D c = sigmas("C", 1); const Uncertain<Sc, FullNoise> meas{z.leaf, FullNoise<Sc>::FromCovariance(fix<1, 1>(c))}; same("covariance", meas.noise.covariance(), c); const D s = col(1 / sqrt(c.a[0][0])); same("inverse square root", meas.noise.inverseSqrtCov(), s); const auto fac = makeFactor<FDot>(meas, var<Translationd>(), var<Translationd>()); const D f = col(dot(a.val(), b.val())); same("residual", fac.evaluate(a.leaf, b.leaf), s * (f - col(z.val()))); const auto t = fac.evaluateWithJacobians(a.leaf, b.leaf); same("residual with Jacobians", std::get<0>(t), s * (f - col(z.val()))); jacIs("wrt a", f, std::get<1>(t), a); jacIs("wrt b", f, std::get<2>(t), b))
