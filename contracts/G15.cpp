// G15: dynamic proxies behave like the expressions they hold (vectors).
#include "proxies.hpp"
VC(sum, v + w) VC(diff, v - 2.0 * w)
