// G15: dynamic proxies behave like the expressions they hold (vectors).
#include "proxies.hpp"
VC(trans, T * (v + w)) VC(inv, inverse(R) * v - w)
