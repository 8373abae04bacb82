// G15: dynamic proxies behave like the expressions they hold (vectors).
#include "proxies.hpp"
VC(scale, s * v) VC(div, (v + w) / s)
