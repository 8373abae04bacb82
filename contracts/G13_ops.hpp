// One list of expressions; X1(name, leaf, frames, expr in x), X2(name, leafX, frames, leafY, frames, expr in x, y)
#define U(n, L, F, ...) H(n, { In<L> a("x"); auto xf = fr<F>(a.leaf); const auto f = [](auto k, const auto &x) { (void)k; return __VA_ARGS__; }; side1(f(casts{}, xf), f(nocasts{}, a.leaf), xf, a.leaf); })
#define B(n, L, F, M, G, ...) H(n, { In<L> a("x"); In<M> c("y"); auto xf = fr<F>(a.leaf); auto yf = fr<G>(c.leaf); const auto f = [](auto k, const auto &x, const auto &y) { (void)k; return __VA_ARGS__; }; side2(f(casts{}, xf, yf), f(nocasts{}, a.leaf, c.leaf), xf, a.leaf, yf, c.leaf); })
#define UNZ(n, L, F, ...) H(n, { In<L> a("x"); vc_assume_lt(0, dot(a.v, a.v)); auto xf = fr<F>(a.leaf); const auto f = [](auto k, const auto &x) { (void)k; return __VA_ARGS__; }; side1(f(casts{}, xf), f(nocasts{}, a.leaf), xf, a.leaf); })
