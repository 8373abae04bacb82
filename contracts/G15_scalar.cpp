// G15: dynamic proxies behave like the expressions they hold (scalars).
#include "proxies.hpp"
#define SC(n, e) HELD(s_##n, e, vec, x * v) HELD(s_##n, e, ar, (x + s) * 3.0 - x / s) HELD(s_##n, e, built, 2.0 - x)
SC(dot, dot(v, w)) SC(mul, s * s + 2.0) SC(quot, dot(v, w) / s)
