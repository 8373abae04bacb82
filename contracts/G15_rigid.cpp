// G15: dynamic proxies behave like the expressions they hold (rigid transforms).
#include "proxies.hpp"
#define TC(n, e) HELD(t_##n, e, act, x * v) HELD(t_##n, e, comp, x * T) HELD(t_##n, e, part, x.rotation() * v + x.translation())
TC(comp, T * U) TC(inv, inverse(T)) TC(uinv, inverse(U) * T)
HELD(t_inv, inverse(T), inv, inverse(x)) HELD(t_uinv, inverse(U), inv, inverse(x))
